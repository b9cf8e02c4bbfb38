From 44b129fba428edb8534fbe44df5f9caf3f438c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 01/17] fix: read headers and blocks with read_exact so short
 reads are not zero-filled

A reader returning short reads made opening fail, and a truncated database
was silently accepted as if padded with zeros. The logging reader now also
logs only the bytes that were actually read.
---
 src/format/kdb2_reader.rs | 6 +++---
 src/io/log_reader.rs      | 6 +++---
 src/types/database.rs     | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 1977442..6e658b7 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -346,19 +346,19 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
     let mut data = [0; 16];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
     let mut data = [0; 32];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
     let mut data = vec![0; *size];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
diff --git a/src/io/log_reader.rs b/src/io/log_reader.rs
index c219110..5653be3 100644
--- a/src/io/log_reader.rs
+++ b/src/io/log_reader.rs
@@ -47,11 +47,11 @@ impl<R> Log for LogReader<R> {
 
 impl<R: Read> Read for LogReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        let result = self.inner.read(buf);
+        let size = self.inner.read(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(&buf);
+            self.log_data.extend(buf.iter().take(size));
         }
-        result
+        Ok(size)
     }
 }
 
diff --git a/src/types/database.rs b/src/types/database.rs
index cf720c4..1f2756d 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -438,12 +438,12 @@ impl Database {
         let mut reader = LogReader::new(reader);
         let mut buffer = [0u8; 4];
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer != common::DB_SIGNATURE {
             return Err(Error::InvalidDbSignature(buffer));
         }
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer == common::KDB1_SIGNATURE {
             return Err(Error::UnhandledDbType(buffer));
         } else if buffer == common::KDB2_SIGNATURE {
-- 
2.43.0


From 14a27ae0f163e5bda067c72235c9ae61fcec90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 02/17] fix: write headers, payload and key files with
 write_all

A writer performing short writes produced a truncated file while save
returned Ok. The logging writer now logs only the bytes that were written.
---
 src/format/kdb2_writer.rs | 16 ++++++++--------
 src/format/kf_writer.rs   |  4 ++--
 src/io/log_writer.rs      |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 2953fc2..56ddbc4 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -71,35 +71,35 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     kdb2_xml_writer::write(&mut xml, db, &hash, &stream_key)?;
 
     let mut payload = Vec::new();
-    payload.write(&stream_start_bytes.0)?;
+    payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
     write_block(&mut payload, 0, &compressed)?;
     write_block_final(&mut payload, 1)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
-    writer.write(&encrypted)?;
+    writer.write_all(&encrypted)?;
 
     Ok(())
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&sha256::hash(&[data]))?;
+    writer.write_all(&sha256::hash(&[data]))?;
     writer.write_u32::<LittleEndian>(data.len() as u32)?;
-    writer.write(data)?;
+    writer.write_all(data)?;
     Ok(())
 }
 
 fn write_block_final<W: Write>(writer: &mut W, id: u32) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&kdb2::FINAL_BLOCK_HASH)?;
+    writer.write_all(&kdb2::FINAL_BLOCK_HASH)?;
     writer.write_u32::<LittleEndian>(0)?;
     Ok(())
 }
 
 fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
-    writer.write(bytes)?;
+    writer.write_all(bytes)?;
     Ok(())
 }
 
@@ -173,12 +173,12 @@ fn write_protected_stream_key<W: Write>(writer: &mut W, key: &ProtectedStreamKey
 }
 
 fn write_sig_1<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::DB_SIGNATURE)?;
+    writer.write_all(&common::DB_SIGNATURE)?;
     Ok(())
 }
 
 fn write_sig_2<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::KDB2_SIGNATURE)?;
+    writer.write_all(&common::KDB2_SIGNATURE)?;
     Ok(())
 }
 
diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 51ec05d..7386e42 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -23,13 +23,13 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
-    writer.write(key.key.unsecure())?;
+    writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let hex = hex::encode(key.key.unsecure());
-    writer.write(&hex.into_bytes())?;
+    writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
diff --git a/src/io/log_writer.rs b/src/io/log_writer.rs
index d6c3440..c80e2ee 100644
--- a/src/io/log_writer.rs
+++ b/src/io/log_writer.rs
@@ -47,11 +47,11 @@ impl<W> Log for LogWriter<W> {
 
 impl<W: Write> Write for LogWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let result = self.inner.write(buf);
+        let size = self.inner.write(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(buf);
+            self.log_data.extend(buf.iter().take(size));
         }
-        result
+        Ok(size)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From df97d908071b5cb1de41dfe694dff27c3a668282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 03/17] fix: report an invalid key when the decrypted payload
 is too short

Slicing the first 32 bytes panicked for databases truncated right after the
headers.
---
 src/format/kdb2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 6e658b7..2bbc4d6 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -127,7 +127,7 @@ where
     let encrypted = read_enc_payload(reader)?;
     let payload = aes256::decrypt(&master_key, &master_iv, &encrypted)?;
 
-    if payload[0..32] != stream_start_bytes.0 {
+    if !payload.starts_with(&stream_start_bytes.0) {
         return Err(Error::InvalidKey);
     }
 
-- 
2.43.0


From bb5c6dedfee4872ff0901671019af390b1bd8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 04/17] fix: reject non-ASCII color strings instead of
 panicking

Seven-character strings with multi-byte characters were sliced at a
non-character boundary, which panicked.
---
 src/types/color.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 652ee3f..9e95a1d 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -139,21 +139,21 @@ impl error::Error for ColorError {
 }
 
 fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[5..7], 16) {
+    match u8::from_str_radix(hex_str.get(5..7).unwrap_or(""), 16) {
         Ok(val) => Ok(val),
         Err(_) => Err(ColorError::InvalidBlueValue),
     }
 }
 
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[3..5], 16) {
+    match u8::from_str_radix(hex_str.get(3..5).unwrap_or(""), 16) {
         Ok(val) => Ok(val),
         Err(_) => Err(ColorError::InvalidGreenValue),
     }
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[1..3], 16) {
+    match u8::from_str_radix(hex_str.get(1..3).unwrap_or(""), 16) {
         Ok(val) => Ok(val),
         Err(_) => Err(ColorError::InvalidRedValue),
     }
-- 
2.43.0


From 2e85146e567c6736110c43d1dd850dff4bcc3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 05/17] fix: keep empty associations, custom data, icons and
 string/binary keys on open

An empty element was treated as missing, so a saved database with an empty
key, value, icon or association could not be opened again or lost data.
---
 src/format/kdb2_xml_reader.rs | 10 +++++-----
 src/format/xml.rs             | 10 ++--------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index a57b0ee..b7dd34b 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -286,10 +286,10 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_string_opt(reader)?;
+                    value = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
@@ -351,7 +351,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
-                    data = xml::read_binary_opt(reader)?;
+                    data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
@@ -615,10 +615,10 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
-                    keystroke = xml::read_string_opt(reader)?;
+                    keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
-                    window = xml::read_string_opt(reader)?;
+                    window = Some(xml::read_string(reader)?);
                 }
                 _ => {}
             },
diff --git a/src/format/xml.rs b/src/format/xml.rs
index eef0494..4c047b7 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -41,10 +41,7 @@ pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
 
 /// Attempts to read an optional binary key.
 pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<BinaryKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(BinaryKey(string))),
-        None => Ok(None),
-    }
+    Ok(Some(BinaryKey(read_string(reader)?)))
 }
 
 /// Attempts to read optional binary data.
@@ -216,10 +213,7 @@ pub fn read_string<R: Read>(reader: &mut EventReader<R>) -> Result<String> {
 
 /// Attempts to read an optional string key
 pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<StringKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(StringKey::from_string(&string))),
-        None => Ok(None),
-    }
+    Ok(Some(StringKey::from_string(&read_string(reader)?)))
 }
 
 /// Attempts to read an optional string.
-- 
2.43.0


From af4ab1876a8253a452f78077abaffdc8e3d6d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 06/17] fix: keep text that consists of whitespace only on open

The XML reader reports such text as a whitespace event, which was dropped.
---
 src/format/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 4c047b7..9f004ef 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -220,7 +220,7 @@ pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Optio
 pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
     let event = reader.next()?;
     match event {
-        reader::XmlEvent::Characters(val) => Ok(Some(val)),
+        reader::XmlEvent::Characters(val) | reader::XmlEvent::Whitespace(val) => Ok(Some(val)),
         reader::XmlEvent::EndElement { .. } => Ok(None),
         _ => {
             let _: Result<Option<String>> =
-- 
2.43.0


From 50d0313cf28418c132a053dfa8684178c357a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 07/17] fix: link history entries to their parent group on open

They kept the nil group UUID because the UUID of the group is not known yet
when they are read.
---
 src/format/kdb2_xml_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index b7dd34b..ab15077 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -491,6 +491,9 @@ fn read_group<R: Read>(
     let parent = node.uuid.clone();
     for entry in node.entries.iter_mut() {
         entry.parent = parent;
+        for history_entry in entry.history.iter_mut() {
+            history_entry.parent = parent;
+        }
     }
     for group in node.groups.iter_mut() {
         group.parent = parent;
-- 
2.43.0


From ef3710ed37f71b72d8936c034fbbc967bb134f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 08/17] fix: save the custom icon of groups

The reader understands the CustomIconUUID element of a group but the writer
never wrote it, so the icon was lost when a database was saved.
---
 src/format/kdb2_xml_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 7666e5f..abb5c7f 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -211,6 +211,7 @@ fn write_group_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
+    xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
     xml::write_string_tag(
         writer,
         kdb2::DEFAULT_AUTO_TYPE_SEQUENCE_TAG,
-- 
2.43.0


From 01bb2c901ba608776ee5b75b3c3097446e764933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 09/17] fix: reject comments and blocks whose size does not fit
 the size field

The size was truncated, which saved a database that cannot be opened.
---
 src/format/kdb2_writer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 56ddbc4..d080efd 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -18,6 +18,7 @@ use crate::io::Log;
 use crate::types::Comment;
 use crate::types::Compression;
 use crate::types::Database;
+use crate::types::Error;
 use crate::types::HeaderHash;
 use crate::types::MasterCipher;
 use crate::types::MasterIV;
@@ -84,9 +85,11 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
+    let size = u32::try_from(data.len())
+        .map_err(|_| Error::Unimplemented(String::from("Block larger than 4294967295 bytes")))?;
     writer.write_u32::<LittleEndian>(id)?;
     writer.write_all(&sha256::hash(&[data]))?;
-    writer.write_u32::<LittleEndian>(data.len() as u32)?;
+    writer.write_u32::<LittleEndian>(size)?;
     writer.write_all(data)?;
     Ok(())
 }
@@ -106,8 +109,11 @@ fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
 fn write_comment<W: Write>(writer: &mut W, opt: &Option<Comment>) -> Result<()> {
     match *opt {
         Some(ref comment) => {
+            let size = u16::try_from(comment.0.len()).map_err(|_| {
+                Error::Unimplemented(String::from("Comment larger than 65535 bytes"))
+            })?;
             write_header_id(writer, kdb2::COMMENT_HID)?;
-            write_header_size(writer, comment.0.len() as u16)?;
+            write_header_size(writer, size)?;
             write_bytes(writer, &comment.0)?;
             Ok(())
         }
-- 
2.43.0


From 3d32346a44c59a9973479e75e68192fa5241cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 10/17] fix: decompress the concatenated data blocks as a
 single stream

KeePass splits the compressed stream into blocks of 1 MiB, so decompressing
every block on its own made larger databases unreadable.
---
 src/format/kdb2_reader.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 2bbc4d6..ee39d8e 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -312,13 +312,13 @@ fn read_version<R: Read>(reader: &mut R) -> Result<Version> {
 
 fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>> {
     let mut reader = Cursor::new(payload);
-    let mut xml = Vec::new();
+    let mut data = Vec::new();
 
     for block_id in 0..u32::max_value() {
         let id = reader.read_u32::<LittleEndian>()?;
         let hash = read_bytes_32(&mut reader)?;
         let size = reader.read_u32::<LittleEndian>()? as usize;
-        let raw_data = read_bytes_size(&mut reader, &size)?;
+        let mut raw_data = read_bytes_size(&mut reader, &size)?;
 
         if id != block_id {
             return Err(Error::InvalidBlockId(id));
@@ -337,11 +337,11 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
             return Err(Error::InvalidBlockHash);
         }
 
-        let mut block_data = decompress(compression, &raw_data)?;
-        xml.append(&mut block_data);
+        data.append(&mut raw_data);
     }
 
-    Ok(xml)
+    // The blocks are parts of a single compressed stream
+    decompress(compression, &data)
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From bcd0f237440cc8cf04a1123987e3e44d78ecd18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 11/17] fix: do not panic when a diagnostic cannot be written
 to stderr

eprintln! panics if writing to stderr fails.
---
 src/format/kdb2_xml_reader.rs | 4 ++--
 src/format/xml.rs             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index ab15077..846c19f 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -32,7 +32,7 @@ use crate::types::Times;
 use crate::types::XmlData;
 use rust_xml::attribute::OwnedAttribute;
 use rust_xml::reader::{EventReader, XmlEvent};
-use std::io::Read;
+use std::io::{self, Read, Write};
 
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
@@ -583,7 +583,7 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
                     kdb2::ASSOCIATION_TAG => {
                         read_association(reader)
                             .map(|x| node.associations.push(x))
-                            .map_err(|err| eprintln!("{}", err));
+                            .map_err(|err| writeln!(io::stderr(), "{}", err));
                     }
                     kdb2::DATA_TRANSFER_OBFUSCATION_TAG => {
                         node.auto_type_obfuscation = xml::read_obfuscation(reader)?;
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 9f004ef..465a25a 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -24,7 +24,7 @@ use crate::types::StringValue;
 use base64::{engine::general_purpose, Engine as _};
 use chrono::{DateTime, Utc};
 use secstr::SecStr;
-use std::io::{Read, Write};
+use std::io::{self, Read, Write};
 use uuid::Uuid;
 use xml::attribute::OwnedAttribute;
 use xml::common::Position;
@@ -225,7 +225,7 @@ pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<St
         _ => {
             let _: Result<Option<String>> =
                 read_err(reader, "No characters found").map_err(|err| {
-                    eprintln!("{}", err);
+                    let _ = writeln!(io::stderr(), "{}", err);
                     err
                 });
             Ok(None)
-- 
2.43.0


From 8afb9759d4360dfc58a3b24769f0814941557c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 12/17] fix: reject text that XML cannot represent when saving

Control characters and noncharacters were written as they are, which saved a
database that cannot be opened.
---
 src/format/kdb2_xml_writer.rs |  2 ++
 src/format/xml.rs             | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index abb5c7f..4202e02 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -104,6 +104,7 @@ fn write_binary_section<W: Write>(
             xml::write_end_tag(writer)?;
         }
         BinaryValue::Ref(ref binary_id) => {
+            xml::check_chars(&binary_id.0)?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Ref", binary_id.0.as_str());
             writer.write(tag)?;
@@ -119,6 +120,7 @@ fn write_binaries_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::BINARIES_TAG)?;
     for (id, data) in binaries {
+        xml::check_chars(&id.0)?;
         let tag = XmlEvent::start_element(kdb2::BINARY_TAG);
         let tag = tag.attr("ID", id.0.as_str());
         let tag = tag.attr("Compressed", "True");
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 465a25a..a182125 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -27,11 +27,18 @@ use secstr::SecStr;
 use std::io::{self, Read, Write};
 use uuid::Uuid;
 use xml::attribute::OwnedAttribute;
-use xml::common::Position;
+use xml::common::{is_xml10_char, Position};
 use xml::reader::{self, EventReader};
 use xml::writer::{self, EventWriter};
 
 /// Attempts to read binary data.
+pub fn check_chars(value: &str) -> Result<()> {
+    match value.chars().find(|c| !is_xml10_char(*c)) {
+        Some(c) => Err(Error::XmlError(format!("Character not allowed in XML: {:?}", c))),
+        None => Ok(()),
+    }
+}
+
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
         Some(bytes) => Ok(bytes),
@@ -387,6 +394,7 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
+    check_chars(value)?;
     writer.write(value.as_str())?;
     Ok(())
 }
-- 
2.43.0


From f3a48a2763d68e83c5b2801af7976e1ead33a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 13/17] fix: reject protected strings that are not UTF-8 when
 saving

They were encrypted as they are, which saved a database that cannot be opened.
---
 src/format/kdb2_xml_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 4202e02..8f8935c 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -21,6 +21,7 @@ use crate::types::CustomIconsMap;
 use crate::types::Database;
 use crate::types::Entry;
 use crate::types::EntryState;
+use crate::types::Error;
 use crate::types::Group;
 use crate::types::HeaderHash;
 use crate::types::Result;
@@ -30,6 +31,7 @@ use crate::types::StringValue;
 use crate::types::Times;
 use rust_xml::writer::{EmitterConfig, EventWriter, XmlEvent};
 use std::io::Write;
+use std::str;
 
 /// Attempts to write the database's XML data to the writer.
 pub fn write<W: Write>(
@@ -344,6 +346,8 @@ fn write_string_section<W: Write>(
             xml::write_string_tag(writer, kdb2::VALUE_TAG, string)?;
         }
         StringValue::Protected(ref sec) => {
+            str::from_utf8(sec.unsecure())
+                .map_err(|err| Error::XmlError(format!("UTF8 {}", err)))?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-- 
2.43.0


From 0673199f794d2c97d4ccfb556609bb80802eafb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 14/17] fix: reject a payload without a final block however
 many blocks precede it

---
 src/format/kdb2_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index ee39d8e..0611770 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -326,7 +326,8 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
         if size == 0 {
             if hash == kdb2::FINAL_BLOCK_HASH {
-                break;
+                // The blocks are parts of a single compressed stream
+                return decompress(compression, &data);
             } else {
                 return Err(Error::InvalidFinalBlockHash(hash));
             }
@@ -340,8 +341,8 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
         data.append(&mut raw_data);
     }
 
-    // The blocks are parts of a single compressed stream
-    decompress(compression, &data)
+    // The final block is missing
+    Err(Error::InvalidBlockId(u32::max_value()))
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From 0eb0c7cfec882e2b2aee7a35502745070a1a3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 15/17] fix: decrypt shared binaries that are marked protected
 on open

---
 src/format/kdb2_xml_reader.rs | 26 +++++++++++++++++++++-----
 src/format/xml.rs             |  3 ++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 846c19f..005fcf9 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -8,6 +8,7 @@
 
 //! The XML reader for KeePass 2 databases.
 
+use crate::compression::gzip;
 use crate::crypto::salsa20::{self, Salsa20};
 use crate::format::{kdb2, xml};
 use crate::types::Association;
@@ -70,7 +71,7 @@ fn read_kee_pass_file<R: Read>(
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
-                    read_meta(reader, data)?;
+                    read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
@@ -91,13 +92,17 @@ fn read_kee_pass_file<R: Read>(
     Ok(())
 }
 
-fn read_meta<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_meta<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
-                    data.binaries = read_binaries(reader)?;
+                    data.binaries = read_binaries(reader, cipher)?;
                 }
                 kdb2::COLOR_TAG => {
                     data.color = xml::read_color_opt(reader)?;
@@ -218,7 +223,10 @@ fn read_root<R: Read>(
     Ok(())
 }
 
-fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
+fn read_binaries<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<BinariesMap> {
     let mut map = BinariesMap::new();
     loop {
         let event = reader.next()?;
@@ -229,7 +237,15 @@ fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
                     let compressed = get_compressed_attr_value(reader, &attributes)?;
-                    let bytes = if compressed {
+                    let protected = xml::get_protected_attr_value(reader, &attributes)?;
+                    let bytes = if protected {
+                        let plain = salsa20::decrypt(cipher, &xml::read_binary(reader)?);
+                        if compressed {
+                            gzip::decode(&plain)?
+                        } else {
+                            plain
+                        }
+                    } else if compressed {
                         xml::read_gzip(reader)?
                     } else {
                         xml::read_binary(reader)?
diff --git a/src/format/xml.rs b/src/format/xml.rs
index a182125..2c95d75 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -429,7 +429,8 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
-fn get_protected_attr_value<R: Read>(
+/// Attempts to get the value of the protected attribute.
+pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<bool> {
-- 
2.43.0


From 80e69671dfdafdd350d1df76dcdce84515519db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 16/17] fix: reject padding larger than the block instead of
 panicking

---
 src/crypto/aes256.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 6e6c541..9ec4495 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -7,15 +7,33 @@
 // except according to those terms.
 
 use crate::rust_crypto::aes::{self, KeySize};
-use crate::rust_crypto::blockmodes::PkcsPadding;
+use crate::rust_crypto::blockmodes::{PaddingProcessor, PkcsPadding};
 use crate::rust_crypto::buffer::{
     BufferResult, ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer,
 };
 use crate::types::{MasterIV, MasterKey, Result};
 
+/// PKCS padding that rejects, instead of panics on, padding that is larger than the block.
+struct CheckedPkcsPadding;
+
+impl PaddingProcessor for CheckedPkcsPadding {
+    fn pad_input<W: WriteBuffer>(&mut self, input_buffer: &mut W) {
+        PkcsPadding.pad_input(input_buffer)
+    }
+
+    fn strip_output<R: ReadBuffer>(&mut self, output_buffer: &mut R) -> bool {
+        let data = output_buffer.peek_remaining();
+        match data.last() {
+            Some(&size) if size as usize <= data.len() => PkcsPadding.strip_output(output_buffer),
+            _ => false,
+        }
+    }
+}
+
 /// Decrypt the input using the key and initialization vector.
 pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
-    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
+    let padding = CheckedPkcsPadding;
+    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, padding);
     let mut output = Vec::new();
     let mut read_buffer = RefReadBuffer::new(input);
     let mut buffer = [0; 4096];
-- 
2.43.0


From 8ffa8063c40d3c6d4bd0d97897cae120d60bd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:01 +0000
Subject: [PATCH 17/17] fix: keep texts that are stored in CDATA sections

---
 src/format/kdb2_xml_reader.rs | 5 +++--
 src/format/kf_reader.rs       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 005fcf9..2a3bba2 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -32,13 +32,14 @@ use crate::types::StringValue;
 use crate::types::Times;
 use crate::types::XmlData;
 use rust_xml::attribute::OwnedAttribute;
-use rust_xml::reader::{EventReader, XmlEvent};
+use rust_xml::reader::{EventReader, ParserConfig, XmlEvent};
 use std::io::{self, Read, Write};
 
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
     let mut data = XmlData::default();
-    let mut reader = EventReader::new(reader);
+    let config = ParserConfig::new().cdata_to_characters(true);
+    let mut reader = EventReader::new_with_config(reader, config);
     let mut cipher = salsa20::new_cipher(stream_key);
     loop {
         let event = reader.next()?;
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 0819578..702adf9 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -11,7 +11,7 @@
 use crate::format::{kf, xml};
 use crate::types::{Error, KeyFile, KeyFileType, Result};
 use hex::FromHex;
-use rust_xml::reader::{EventReader, XmlEvent};
+use rust_xml::reader::{EventReader, ParserConfig, XmlEvent};
 use secstr::SecStr;
 use std::io::{Cursor, Read};
 
@@ -45,7 +45,8 @@ fn read_hex(data: Vec<u8>) -> Result<KeyFile> {
 
 fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
     let mut opt_key: Option<SecStr> = None;
-    let mut reader = EventReader::new(reader);
+    let config = ParserConfig::new().cdata_to_characters(true);
+    let mut reader = EventReader::new_with_config(reader, config);
     loop {
         let event = reader.next()?;
         match event {
-- 
2.43.0

