From 9c89a33c0a36b3a1809cafeb0b01af3ac39bedf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 01/17] fix: report truncated calculator files instead of
 panicking

---
 src/calculator/file/from_8xp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 766852d..abe63ac 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -18,6 +18,16 @@ pub fn create_from_8xp(
         Err(err) => return Err(TiToolsError::FileRead(err)),
     };
 
+    let metadata_length = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => 17,
+        _ => 19,
+    };
+
+    // 55 byte header, metadata and 2 byte checksum
+    if bytes.len() < 55 + metadata_length + 2 {
+        return Err(TiToolsError::InvalidByteLength(format!("{}", bytes.len())));
+    }
+
     let (header_bytes, bytes) = bytes.split_at(55);
     let (metadata_bytes, bytes) = match file_type {
         ProgramFileType::XP => bytes.split_at(19),
-- 
2.43.0


From 0003c23281bbf9973acbabf15ec12528d8a3c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 02/17] fix: check the output extension before deleting an
 existing file

---
 src/calculator/program.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 755ce1e..a3e1c66 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -132,6 +132,11 @@ impl Program {
     }
 
     pub fn save_to(&self, path: &PathBuf) -> Result<(), TiToolsError> {
+        let file_type = match get_file_type(path) {
+            Ok(file_type) => file_type,
+            Err(err) => return Err(err),
+        };
+
         if path.exists() {
             println!("A file already exists at the output path, would you like to delete its content and proceed? [y/N]");
             let mut input = String::new();
@@ -158,11 +163,6 @@ impl Program {
             }
         }
 
-        let file_type = match get_file_type(path) {
-            Ok(file_type) => file_type,
-            Err(err) => return Err(err),
-        };
-
         match file_type {
             ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 let mut output_bytes = Vec::new();
-- 
2.43.0


From 218c22eca4e0f0ad90cb86dc6f6da3993750f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 03/17] fix: build complete 8xp metadata for loaded 82p and 83p
 files

---
 src/calculator/file/from_8xp.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index abe63ac..164934e 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -118,16 +118,18 @@ pub fn create_from_8xp(
             new_metadata_bytes.push(0x00);
             let body_and_checksum_length = (body_bytes.len() + 2) as u16;
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            new_metadata_bytes.push(0x05);
+            new_metadata_bytes.push(metadata_bytes[4]);
+            let file_type = FileType::from_byte(metadata_bytes[4])?;
             let name = metadata_bytes[5..13]
                 .iter()
                 .filter(|byte| **byte != 0x00)
                 .map(|byte| *byte as char)
                 .collect::<String>();
-            new_metadata_bytes.extend(name.as_bytes());
-            new_metadata_bytes.push(0x00);
+            new_metadata_bytes.extend(&metadata_bytes[5..13]);
+            new_metadata_bytes.push(0x00); // version
+            new_metadata_bytes.push(Destination::RAM.to_byte());
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            let body_length = (body_bytes.len() + 2) as u16;
+            let body_length = body_bytes.len() as u16;
             new_metadata_bytes.extend(body_length.to_le_bytes());
 
             Metadata::new(
@@ -135,7 +137,7 @@ pub fn create_from_8xp(
                 0x0D,
                 0x00,
                 body_and_checksum_length,
-                FileType::Program,
+                file_type,
                 name,
                 0x00,
                 Destination::RAM,
-- 
2.43.0


From e1f97fc45a7e47812e72d440bc86af7bce809b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 04/17] fix: write a valid checksum and length when saving
 calculator files

---
 src/calculator/program.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index a3e1c66..f0ca97d 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -167,10 +167,17 @@ impl Program {
             ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 let mut output_bytes = Vec::new();
 
-                output_bytes.extend(self.header.bytes.to_vec());
-                output_bytes.extend(self.metadata.bytes.to_vec());
+                let metadata_bytes = self.metadata.bytes.to_vec();
+                let metadata_and_body_length =
+                    (metadata_bytes.len() + self.body.bytes.len()) as u16;
+                let checksum = Checksum::calculate(&metadata_bytes, &self.body.bytes);
+
+                // the last 2 header bytes are the metadata and body length
+                output_bytes.extend(self.header.bytes[0..53].to_vec());
+                output_bytes.extend(metadata_and_body_length.to_le_bytes());
+                output_bytes.extend(metadata_bytes);
                 output_bytes.extend(self.body.bytes.to_vec());
-                output_bytes.extend(self.checksum.bytes.to_vec());
+                output_bytes.extend(checksum.to_le_bytes());
 
                 write_to_file(path, output_bytes)?
             }
@@ -383,6 +390,21 @@ impl Checksum {
         Checksum { bytes, value }
     }
 
+    /// The sum of all metadata and body bytes modulo 65536
+    pub fn calculate(metadata_bytes: &[u8], body_bytes: &[u8]) -> u16 {
+        let mut sum: u16 = 0;
+
+        for byte in metadata_bytes {
+            sum = sum.wrapping_add(*byte as u16);
+        }
+
+        for byte in body_bytes {
+            sum = sum.wrapping_add(*byte as u16);
+        }
+
+        sum
+    }
+
     pub fn display(&self) -> String {
         format!(
             "Checksum\n\
-- 
2.43.0


From 12ef633e1ebd582b9da1ae1d1306dc48dc95d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 05/17] fix: write 17 byte metadata when saving 82p and 83p
 files

---
 src/calculator/program.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index f0ca97d..f88d464 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -167,7 +167,12 @@ impl Program {
             ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 let mut output_bytes = Vec::new();
 
-                let metadata_bytes = self.metadata.bytes.to_vec();
+                let metadata_bytes = match file_type {
+                    ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+                        self.metadata.to_short_bytes(self.body.bytes.len())
+                    }
+                    _ => self.metadata.bytes.to_vec(),
+                };
                 let metadata_and_body_length =
                     (metadata_bytes.len() + self.body.bytes.len()) as u16;
                 let checksum = Checksum::calculate(&metadata_bytes, &self.body.bytes);
@@ -336,6 +341,18 @@ impl Metadata {
         Ok(())
     }
 
+    /// The 17 byte metadata of 82p and 83p files, without the version and destination bytes
+    fn to_short_bytes(&self, body_length: usize) -> Vec<u8> {
+        let mut short_bytes = vec![0x0B, 0x00];
+
+        short_bytes.extend(((body_length + 2) as u16).to_le_bytes());
+        short_bytes.extend(&self.bytes[4..13]);
+        short_bytes.extend(((body_length + 2) as u16).to_le_bytes());
+        short_bytes.extend((body_length as u16).to_le_bytes());
+
+        short_bytes
+    }
+
     // byte 5 is the file type byte
     pub fn lock(&mut self) {
         self.bytes[4] = FileType::LockedProgram.to_byte();
-- 
2.43.0


From ee865c3b43f9adf31ab1a83fd560f9ffd81c8dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 06/17] fix: reject programs too long for the 16 bit length
 fields

---
 src/calculator/file/from_8xp.rs | 5 +++++
 src/calculator/file/from_txt.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 164934e..c18201f 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -28,6 +28,11 @@ pub fn create_from_8xp(
         return Err(TiToolsError::InvalidByteLength(format!("{}", bytes.len())));
     }
 
+    // the length of 19 byte metadata and the body must fit in 2 bytes
+    if bytes.len() - 55 - metadata_length - 2 + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!("{}", bytes.len())));
+    }
+
     let (header_bytes, bytes) = bytes.split_at(55);
     let (metadata_bytes, bytes) = match file_type {
         ProgramFileType::XP => bytes.split_at(19),
diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 7987ee1..cf7d387 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -65,6 +65,14 @@ pub fn create_from_txt(
 
     let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
 
+    // the length of the metadata and body must fit in 2 bytes
+    if body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "{}",
+            body_bytes.len()
+        )));
+    }
+
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
     header_bytes.extend(signature.as_bytes());
-- 
2.43.0


From aecd51715160d2486d768226dbb1737aac1b091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:30 +0000
Subject: [PATCH 07/17] fix: reject json programs whose sections have
 impossible lengths

---
 src/calculator/program.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index f88d464..a92aafc 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -128,6 +128,18 @@ impl Program {
             Err(err) => return Err(TiToolsError::FailedToDeserializeJson(err.to_string())),
         };
 
+        if program.header.bytes.len() != 55
+            || program.metadata.bytes.len() != 19
+            || program.body.bytes.len() + 19 > u16::MAX as usize
+        {
+            return Err(TiToolsError::InvalidByteLength(format!(
+                "header {}, metadata {}, body {}",
+                program.header.bytes.len(),
+                program.metadata.bytes.len(),
+                program.body.bytes.len()
+            )));
+        }
+
         Ok(program)
     }
 
-- 
2.43.0


From 7d9ce1b6564ae64b963a8e6bc013c26b0406f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 08/17] fix: write models to json by the name they are read
 back with

---
 src/calculator/models.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 49a21d4..5b324da 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -81,7 +81,7 @@ impl PartialEq for ModelDetails {
     }
 }
 
-#[derive(Debug, Eq, Clone, Serialize)]
+#[derive(Debug, Eq, Clone)]
 pub enum Model {
     TI82,
     TI83,
@@ -116,6 +116,16 @@ impl PartialEq for Model {
     }
 }
 
+// deserialization goes through Model::from_string
+impl Serialize for Model {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        serializer.serialize_str(&self.to_string())
+    }
+}
+
 impl Model {
     pub fn from_string(model: &str) -> Model {
         match model {
-- 
2.43.0


From aaa8f82d17bf7d7fdc04ea09ea5b2609abfcaba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 09/17] fix: keep the input file when the edited program was
 saved over it

---
 src/commands/edit/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index f6e17ca..78d9200 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -42,7 +42,7 @@ fn save_edits(
             Err(err) => err.print().exit(),
         }
 
-        if delete_old {
+        if delete_old && !may_be_same_file(input_path, &new_file_path) {
             let result = std::fs::remove_file(input_path);
 
             match result {
@@ -56,3 +56,11 @@ fn save_edits(
         }
     }
 }
+
+fn may_be_same_file(first: &Path, second: &Path) -> bool {
+    match (std::fs::canonicalize(first), std::fs::canonicalize(second)) {
+        (Ok(first), Ok(second)) => first == second,
+        // without a definite answer the old file must be kept
+        _ => true,
+    }
+}
-- 
2.43.0


From 9c2103b05a18e0bc0c7ed33fde82af034e60551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 10/17] fix: print styled messages with unclosed brackets or
 multi-byte text without panicking

---
 src/styles.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index 440ed4b..fd4c3a3 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -148,8 +148,14 @@ macro_rules! prints {
         let len = styled_string.len();
 
         while i < len {
-            if &styled_string[i..i + 1] == "[" {
-                let end = styled_string[i..].find("]").unwrap() + i;
+            if styled_string[i..].starts_with("[") {
+                let end = match styled_string[i..].find("]") {
+                    Some(end) => end + i,
+                    None => {
+                        result.push_str(&styled_string[i..]);
+                        break;
+                    }
+                };
                 let directive = &styled_string[i + 1..end];
                 let parts: Vec<&str> = directive.split(':').collect();
 
-- 
2.43.0


From b6ec2c44f42d5f6d9860cfb0a06b7ea9334747b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 11/17] fix: always choose the same token among tokens with
 equal text

---
 src/calculator/tokens/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index c4b557a..fe98eaf 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -125,7 +125,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() > longest_length {
+            // tokens with the same translation are told apart by key, the map order is random
+            if value.starts_with(translation)
+                && (translation.len() > longest_length
+                    || (translation.len() == longest_length && token.as_str() < longest_key))
+            {
                 longest_key = token;
                 longest_value = translation.to_string();
                 longest_length = translation.len();
@@ -155,7 +159,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() < shortest_length {
+            // tokens with the same translation are told apart by key, the map order is random
+            if value.starts_with(translation)
+                && (translation.len() < shortest_length
+                    || (translation.len() == shortest_length && token.as_str() < shortest_key))
+            {
                 shortest_key = token;
                 shortest_value = translation.to_string();
                 shortest_length = translation.len();
-- 
2.43.0


From 9cf66db13d19f72c4fae75a11b21c2ffd8f7804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 12/17] fix: compare equal os versions as equal

---
 src/calculator/tokens/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index fe98eaf..c243a9c 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -41,7 +41,9 @@ impl Ord for OsVersion {
         let other_order = other.model.model_order();
 
         self_order.cmp(&other_order).then_with(|| {
-            if self.version == "latest" {
+            if self.version == other.version {
+                Ordering::Equal
+            } else if self.version == "latest" {
                 Ordering::Greater
             } else if other.version == "latest" || self.version.is_empty() {
                 Ordering::Less
-- 
2.43.0


From 7841055f03fd65405779c38dc39bd684ab0078b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 13/17] fix: report file names that are not utf-8 instead of
 panicking

---
 src/calculator/program.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index a92aafc..47a5101 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -24,7 +24,7 @@ impl Program {
     ) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -64,7 +64,7 @@ impl Program {
     pub fn load_from_txt(path: PathBuf, encode_mode: &EncodeMode) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -102,7 +102,7 @@ impl Program {
     pub fn load_from_json(path: PathBuf) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
             ));
         }
 
@@ -485,7 +485,7 @@ pub fn get_file_type(path: &Path) -> Result<ProgramFileType, TiToolsError> {
             Some("txt") => Ok(ProgramFileType::TXT),
             Some("json") => Ok(ProgramFileType::JSON),
             _ => Err(TiToolsError::InvalidExtension(
-                ext.to_str().unwrap().to_string(),
+                ext.to_string_lossy().to_string(),
             )),
         },
         None => Err(TiToolsError::MissingExtension),
@@ -595,7 +595,7 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         Ok(_) => Ok(()),
         Err(err) => {
             return Err(TiToolsError::FailedToWriteFile(
-                path.to_str().unwrap().to_string(),
+                path.to_string_lossy().to_string(),
                 err.to_string(),
             ))
         }
-- 
2.43.0


From 1336344a75ca6d022035a596ea214a9a549f2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 14/17] fix: recognise the TI-83 signature

---
 src/calculator/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 5b324da..8312275 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -24,6 +24,7 @@ impl ModelDetails {
         match byte {
             0x00 => match signature {
                 "**TI83F*" => Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en")),
+                "**TI83**" => Ok(ModelDetails::new(Model::TI83, "**TI83**", 0x00, "en")),
                 _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),
             },
             0x04 => Ok(ModelDetails::new(Model::TI83Plus, "**TI83F*", 0x04, "en")),
-- 
2.43.0


From c301f5abd5d4e93b4ead44e8ab0875962aa6b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 15/17] fix: keep the display mode of programs loaded from text

---
 src/calculator/file/from_txt.rs | 19 ++++++++++++++++---
 src/calculator/program.rs       | 15 ++++++++-------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index cf7d387..03f9447 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -9,7 +9,7 @@ use std::path::PathBuf;
 pub fn create_from_txt(
     path: PathBuf,
     encode_mode: &EncodeMode,
-) -> Result<(Header, Metadata, Body, Checksum, ModelDetails), TiToolsError> {
+) -> Result<(Header, Metadata, Body, Checksum, DisplayMode, ModelDetails), TiToolsError> {
     let file_string = match std::fs::read_to_string(&path) {
         Ok(file_string) => file_string,
         Err(err) => return Err(TiToolsError::FileRead(err.to_string())),
@@ -63,7 +63,13 @@ pub fn create_from_txt(
         .collect::<Vec<&str>>()
         .join("\n");
 
-    let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
+    let body_bytes = encode(
+        &body_string,
+        &tokens,
+        true,
+        display_mode.clone(),
+        encode_mode,
+    )?;
 
     // the length of the metadata and body must fit in 2 bytes
     if body_bytes.len() + 19 > u16::MAX as usize {
@@ -134,7 +140,14 @@ pub fn create_from_txt(
 
     let body = Body::new(body_bytes, body_string);
 
-    Ok((header, metadata, body, checksum, model_details))
+    Ok((
+        header,
+        metadata,
+        body,
+        checksum,
+        display_mode,
+        model_details,
+    ))
 }
 
 fn create_comment() -> String {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 47a5101..e6ec408 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -80,19 +80,20 @@ impl Program {
             Err(err) => return Err(err),
         };
 
-        let (header, metadata, body, checksum, model) = match create_from_txt(path, encode_mode) {
-            Ok((header, metadata, body, checksum, model)) => {
-                (header, metadata, body, checksum, model)
-            }
-            Err(err) => return Err(err),
-        };
+        let (header, metadata, body, checksum, display_mode, model) =
+            match create_from_txt(path, encode_mode) {
+                Ok((header, metadata, body, checksum, display_mode, model)) => {
+                    (header, metadata, body, checksum, display_mode, model)
+                }
+                Err(err) => return Err(err),
+            };
 
         let program = Program {
             header,
             metadata,
             body,
             checksum,
-            display_mode: DisplayMode::Accessible,
+            display_mode,
             model,
         };
 
-- 
2.43.0


From 9b9a8d37d68044ab3ac2a11c43486e3e15603f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 16/17] fix: exit with an error status for unknown commands and
 missing arguments

---
 src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ddcdb95..3669f6a 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -103,7 +103,7 @@ impl Cli {
                 .find(|&command| command.name == *command_name)
                 .unwrap_or_else(|| {
                     println!("Command not found: {}", command_name);
-                    std::process::exit(0);
+                    std::process::exit(1);
                 });
 
             if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {
@@ -168,7 +168,7 @@ impl Command {
                         "The argument \"{}\" requires the argument \"{}\"",
                         arg.name, required
                     );
-                    std::process::exit(0);
+                    std::process::exit(1);
                 }
             }
         }
-- 
2.43.0


From 2f62d11a968e23cf163bae8bdde36c99aeb23626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 17/17] fix: keep mass conversion inside the output directory

---
 src/commands/convert.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d639c59..37e37a0 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -2,6 +2,7 @@ use crate::calculator::errors::TiToolsError;
 use crate::calculator::program::{get_file_type, Program, ProgramFileType};
 use crate::calculator::{DisplayMode, EncodeMode};
 use crate::prints;
+use std::ffi::OsStr;
 use std::fs;
 use std::io::Write;
 use std::path::Path;
@@ -168,6 +169,13 @@ pub fn convert_command(
         if output_path_string.is_some() {
             let name = program.metadata.name.to_string();
 
+            // the name comes from the input file and must not lead out of the output directory
+            if Path::new(&name).file_name() != Some(OsStr::new(&name)) {
+                prints!("[color:bright-red]Error:[color:reset] The program name can't be used as a file name.");
+                println!("Skipping entry...");
+                continue;
+            }
+
             match file_type {
                 ProgramFileType::XP
                 | ProgramFileType::XPThree
-- 
2.43.0

