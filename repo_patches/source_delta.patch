From a965bf7f6e6775e633c5039b9c878631cdc32d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 01/26] fix: read zeros beyond the initialized size of a
 non-resident value

---
 src/attribute.rs                              | 17 +++++++++
 .../attribute_list_non_resident.rs            |  5 ++-
 src/attribute_value/non_resident.rs           | 37 ++++++++++++++++---
 3 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4cb34cf..2d7aa03 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -288,6 +288,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             data,
             position,
             self.non_resident_value_data_size(),
+            self.non_resident_value_initialized_size(),
         )
     }
 
@@ -312,6 +313,20 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         LittleEndian::read_u64(&self.file.record_data()[start..])
     }
 
+    /// Returns how many bytes of the value stored in the data runs are valid.
+    /// All further bytes up to the data size read as zeros.
+    fn non_resident_value_initialized_size(&self) -> u64 {
+        debug_assert!(!self.is_resident());
+
+        // The field counts uncompressed bytes and says nothing about the stored bytes of a compressed value.
+        if self.flags().contains(NtfsAttributeFlags::COMPRESSED) {
+            return self.non_resident_value_data_size();
+        }
+
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, initialized_size);
+        LittleEndian::read_u64(&self.file.record_data()[start..])
+    }
+
     fn non_resident_value_data_runs_offset(&self) -> u16 {
         debug_assert!(!self.is_resident());
         let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, data_runs_offset);
@@ -504,6 +519,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             // (remaining ones are set to zero).
             // Fortunately, we are the first attribute :)
             let data_size = self.non_resident_value_data_size();
+            let initialized_size = self.non_resident_value_initialized_size();
 
             let value = NtfsAttributeListNonResidentAttributeValue::new(
                 self.file.ntfs(),
@@ -512,6 +528,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.instance(),
                 self.ty()?,
                 data_size,
+                initialized_size,
             )?;
             Ok(NtfsAttributeValue::AttributeListNonResident(value))
         } else if self.is_resident() {
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 564169b..2813175 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -46,13 +46,14 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         instance: u16,
         ty: NtfsAttributeType,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self>
     where
         T: Read + Seek,
     {
         let connected_entries =
             AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -183,7 +184,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     {
         self.connected_entries.attribute_list_entries =
             Some(self.initial_attribute_list_entries.clone());
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state.reset();
         self.next_attribute(fs)?;
 
         Ok(())
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index bdc7f56..f580096 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -40,9 +40,10 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         data: &'f [u8],
         position: NtfsPosition,
         data_size: u64,
+        initialized_size: u64,
     ) -> Result<Self> {
         let stream_data_runs = NtfsDataRuns::new(ntfs, data, position);
-        let stream_state = StreamState::new(data_size);
+        let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
             ntfs,
@@ -112,7 +113,7 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     /// Rewinds this value reader to the very beginning.
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
-        self.stream_state = StreamState::new(self.len());
+        self.stream_state.reset();
         self.next_data_run()?;
 
         Ok(())
@@ -479,6 +480,15 @@ impl NtfsDataRun {
         }
     }
 
+    /// Fills the buffer with zeros up to the end of this Data Run and advances as if that had been read from it.
+    fn read_zeros(&mut self, buf: &mut [u8]) -> usize {
+        let bytes_to_fill = u64::min(buf.len() as u64, self.remaining_len()) as usize;
+        buf[..bytes_to_fill].fill(0);
+
+        self.stream_position += bytes_to_fill as u64;
+        bytes_to_fill
+    }
+
     pub(crate) fn remaining_len(&self) -> u64 {
         self.allocated_size().saturating_sub(self.stream_position)
     }
@@ -531,17 +541,27 @@ pub(crate) struct StreamState {
     stream_position: u64,
     /// Total (used) data size, in bytes.
     data_size: u64,
+    /// Size of the initialized part of the data, in bytes.
+    /// Everything between this and `data_size` reads as zeros, no matter what is stored in the allocated clusters.
+    initialized_size: u64,
 }
 
 impl StreamState {
-    pub(crate) const fn new(data_size: u64) -> Self {
+    pub(crate) const fn new(data_size: u64, initialized_size: u64) -> Self {
         Self {
             stream_data_run: None,
             stream_position: 0,
             data_size,
+            initialized_size,
         }
     }
 
+    /// Resets the iteration state to the very beginning of the value.
+    pub(crate) fn reset(&mut self) {
+        self.stream_data_run = None;
+        self.stream_position = 0;
+    }
+
     /// Returns the absolute current data seek position within the filesystem, in bytes.
     /// This may be `None` if:
     ///   * The current seek position is outside the valid range, or
@@ -650,10 +670,17 @@ impl StreamState {
         // Read up to the buffer length or up to the (used) data size, whatever comes first.
         let start = *bytes_read;
         let remaining_buf_len = buf.len() - start;
-        let end = start + usize::min(remaining_buf_len, remaining_data_size as usize);
+        let mut bytes_to_read = u64::min(remaining_buf_len as u64, remaining_data_size) as usize;
 
         // Perform the actual read.
-        let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
+        // The clusters behind the initialized size may contain arbitrary data, but must be reported as zeros.
+        let remaining_initialized_size = self.initialized_size.saturating_sub(self.stream_position);
+        let bytes_read_in_data_run = if remaining_initialized_size > 0 {
+            bytes_to_read = u64::min(bytes_to_read as u64, remaining_initialized_size) as usize;
+            data_run.read(fs, &mut buf[start..start + bytes_to_read])?
+        } else {
+            data_run.read_zeros(&mut buf[start..start + bytes_to_read])
+        };
         if bytes_read_in_data_run == 0 {
             return Ok(false);
         }
-- 
2.43.0


From 2cf7e8e8a2825c5b1c684c1cf18781597e7271b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 02/26] fix: keep the data position when reading at the end of
 a value with more allocated runs

---
 src/attribute_value/attribute_list_non_resident.rs | 3 ++-
 src/attribute_value/non_resident.rs                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 2813175..3c368ca 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -198,7 +198,8 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
     {
         let mut bytes_read = 0usize;
 
-        while bytes_read < buf.len() {
+        // Never move past the Data Run in which the value ends, even if more clusters are allocated.
+        while bytes_read < buf.len() && self.stream_position() < self.len() {
             // Read from the current Data Run if there is one.
             if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index f580096..89d571e 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -127,7 +127,8 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
     {
         let mut bytes_read = 0usize;
 
-        while bytes_read < buf.len() {
+        // Never move past the Data Run in which the value ends, even if more clusters are allocated.
+        while bytes_read < buf.len() && self.stream_position() < self.len() {
             // Read from the current Data Run if there is one.
             if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
-- 
2.43.0


From 5649a44c564049acf28be86bba23040794d04a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 03/26] fix: do not lose bytes already read when a later access
 of the same read fails

---
 .../attribute_list_non_resident.rs            | 46 +++++++++++--------
 src/attribute_value/non_resident.rs           | 35 +++++++++-----
 2 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 3c368ca..d08cc02 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -177,6 +177,26 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
+    /// Performs a single step of a read, which is either reading from the current Data Run or moving to the next one.
+    /// Returns whether there is anything left to do after this step.
+    fn read_step<T>(&mut self, fs: &mut T, buf: &mut [u8], bytes_read: &mut usize) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        // Read from the current Data Run if there is one.
+        if self.stream_state.read_data_run(fs, buf, bytes_read)? {
+            return Ok(true);
+        }
+
+        // Move to the next Data Run of the current attribute.
+        if self.next_data_run()? {
+            return Ok(true);
+        }
+
+        // Move to the first Data Run of the next connected attribute.
+        self.next_attribute(fs)
+    }
+
     /// Rewinds this value reader to the very beginning.
     fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
     where
@@ -200,25 +220,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 
         // Never move past the Data Run in which the value ends, even if more clusters are allocated.
         while bytes_read < buf.len() && self.stream_position() < self.len() {
-            // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
-                // We read something, so check the loop condition again if we need to read more.
-                continue;
-            }
-
-            // Move to the next Data Run of the current attribute.
-            if self.next_data_run()? {
-                // We got another Data Run of the current attribute, so read again.
-                continue;
-            }
-
-            // Move to the first Data Run of the next connected attribute.
-            if self.next_attribute(fs)? {
-                // We got another attribute, so read again.
-                continue;
-            } else {
+            match self.read_step(fs, buf, &mut bytes_read) {
+                // We read something or got another Data Run, so check the loop condition again if we need to read more.
+                Ok(true) => continue,
                 // We read everything we could.
-                break;
+                Ok(false) => break,
+                // The position has already been advanced by what we have read so far, so report that first.
+                // If the error persists, the next call returns it.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
         }
 
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 89d571e..399ca7b 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -110,6 +110,21 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
+    /// Performs a single step of a read, which is either reading from the current Data Run or moving to the next one.
+    /// Returns whether there is anything left to do after this step.
+    fn read_step<T>(&mut self, fs: &mut T, buf: &mut [u8], bytes_read: &mut usize) -> Result<bool>
+    where
+        T: Read + Seek,
+    {
+        // Read from the current Data Run if there is one.
+        if self.stream_state.read_data_run(fs, buf, bytes_read)? {
+            return Ok(true);
+        }
+
+        // Move to the next Data Run.
+        self.next_data_run()
+    }
+
     /// Rewinds this value reader to the very beginning.
     fn rewind(&mut self) -> Result<()> {
         self.stream_data_runs = self.data_runs();
@@ -129,19 +144,15 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
 
         // Never move past the Data Run in which the value ends, even if more clusters are allocated.
         while bytes_read < buf.len() && self.stream_position() < self.len() {
-            // Read from the current Data Run if there is one.
-            if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
-                // We read something, so check the loop condition again if we need to read more.
-                continue;
-            }
-
-            // Move to the next Data Run.
-            if self.next_data_run()? {
-                // We got another Data Run, so read again.
-                continue;
-            } else {
+            match self.read_step(fs, buf, &mut bytes_read) {
+                // We read something or got another Data Run, so check the loop condition again if we need to read more.
+                Ok(true) => continue,
                 // We read everything we could.
-                break;
+                Ok(false) => break,
+                // The position has already been advanced by what we have read so far, so report that first.
+                // If the error persists, the next call returns it.
+                Err(_) if bytes_read > 0 => break,
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From 7b7800f26a178cf2f84ece7ea1ec4afacb0bee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 04/26] fix: do not continue with the next data run when the
 device ends within a data run

---
 src/attribute_value/non_resident.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 399ca7b..f45590e 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -694,7 +694,12 @@ impl StreamState {
             data_run.read_zeros(&mut buf[start..start + bytes_to_read])
         };
         if bytes_read_in_data_run == 0 {
-            return Ok(false);
+            // The filesystem ends within this Data Run, even though we requested at least one byte of it.
+            // Moving to the next Data Run now would return its data at the wrong position.
+            return Err(NtfsError::Io(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "filesystem ends within a data run",
+            )));
         }
 
         *bytes_read += bytes_read_in_data_run;
-- 
2.43.0


From 89ec878c66cd4fc3720ab72ad1863e331e1cd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 05/26] fix: leave a value where it was when a seek or an
 advance to the next extent fails

---
 .../attribute_list_non_resident.rs            | 35 ++++++++++++-------
 src/attribute_value/non_resident.rs           | 18 ++++++----
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index d08cc02..3a41dad 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -95,7 +95,8 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         };
 
         // Get the state of the `NtfsDataRuns` iterator of that attribute.
-        let data_runs_state = match attribute_state.data_runs_state.take() {
+        // It is left untouched on any error, so that a subsequent call starts over from here.
+        let data_runs_state = match attribute_state.data_runs_state.clone() {
             Some(data_runs_state) => data_runs_state,
             None => return Ok(false),
         };
@@ -113,13 +114,16 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         // Do we have a next Data Run? Save that.
         let stream_data_run = match stream_data_runs.next() {
             Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
+            None => {
+                // We have fully iterated this iterator (and hence also the attribute and file).
+                attribute_state.data_runs_state = None;
+                return Ok(false);
+            }
         };
         let stream_data_run = stream_data_run?;
         self.stream_state.set_stream_data_run(Some(stream_data_run));
 
         // We got another Data Run, so serialize the updated `NtfsDataRuns` state for the next iteration.
-        // This step is skipped when we got no Data Run, because it means we have fully iterated this iterator (and hence also the attribute and file).
         attribute_state.data_runs_state = Some(stream_data_runs.into_state());
 
         Ok(true)
@@ -131,7 +135,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         T: Read + Seek,
     {
         // Do we have another connected attribute?
-        let entry = match self.connected_entries.next(fs) {
+        // Only advance our iterator after having checked for success, so that a subsequent call starts over from here.
+        let mut connected_entries = self.connected_entries.clone();
+        let entry = match connected_entries.next(fs) {
             Some(entry) => entry,
             None => return Ok(false),
         };
@@ -168,6 +174,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
             attribute_offset,
             data_runs_state,
         });
+        self.connected_entries = connected_entries;
 
         Ok(true)
     }
@@ -241,9 +248,12 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
     {
         let pos = self.stream_state.optimize_seek(pos, self.len())?;
 
+        // Only commit the new state when the entire seek has succeeded, so that a failed seek doesn't move.
+        let mut value = self.clone();
+
         let mut bytes_left_to_seek = match pos {
             SeekFrom::Start(n) => {
-                self.rewind(fs)?;
+                value.rewind(fs)?;
                 n
             }
             SeekFrom::Current(n) if n >= 0 => n as u64,
@@ -252,7 +262,7 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 
         while bytes_left_to_seek > 0 {
             // Seek inside the current Data Run if there is one.
-            if self
+            if value
                 .stream_state
                 .seek_data_run(fs, pos, &mut bytes_left_to_seek)?
             {
@@ -261,30 +271,31 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
             }
 
             // Move to the next Data Run of the current attribute.
-            if self.next_data_run()? {
+            if value.next_data_run()? {
                 // We got another Data Run of the current attribute, so seek some more.
                 continue;
             }
 
             // Move to the first Data Run of the next connected attribute.
-            if self.next_attribute(fs)? {
+            if value.next_attribute(fs)? {
                 // We got another connected attribute, so seek some more.
                 continue;
             } else {
                 // We seeked as far as we could.
-                self.stream_state.set_stream_data_run(None);
+                value.stream_state.set_stream_data_run(None);
                 break;
             }
         }
 
         match pos {
-            SeekFrom::Start(n) => self.stream_state.set_stream_position(n),
-            SeekFrom::Current(n) => self
+            SeekFrom::Start(n) => value.stream_state.set_stream_position(n),
+            SeekFrom::Current(n) => value
                 .stream_state
-                .set_stream_position(self.stream_position() + n as u64),
+                .set_stream_position(value.stream_position() + n as u64),
             _ => unreachable!(),
         }
 
+        *self = value;
         Ok(self.stream_position())
     }
 
diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index f45590e..2a2208e 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -165,9 +165,12 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
     {
         let pos = self.stream_state.optimize_seek(pos, self.len())?;
 
+        // Only commit the new state when the entire seek has succeeded, so that a failed seek doesn't move.
+        let mut value = self.clone();
+
         let mut bytes_left_to_seek = match pos {
             SeekFrom::Start(n) => {
-                self.rewind()?;
+                value.rewind()?;
                 n
             }
             SeekFrom::Current(n) if n >= 0 => n as u64,
@@ -176,7 +179,7 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
 
         while bytes_left_to_seek > 0 {
             // Seek inside the current Data Run if there is one.
-            if self
+            if value
                 .stream_state
                 .seek_data_run(fs, pos, &mut bytes_left_to_seek)?
             {
@@ -185,24 +188,25 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
             }
 
             // Move to the next Data Run.
-            if self.next_data_run()? {
+            if value.next_data_run()? {
                 // We got another Data Run, so seek some more.
                 continue;
             } else {
                 // We seeked as far as we could.
-                self.stream_state.set_stream_data_run(None);
+                value.stream_state.set_stream_data_run(None);
                 break;
             }
         }
 
         match pos {
-            SeekFrom::Start(n) => self.stream_state.set_stream_position(n),
-            SeekFrom::Current(n) => self
+            SeekFrom::Start(n) => value.stream_state.set_stream_position(n),
+            SeekFrom::Current(n) => value
                 .stream_state
-                .set_stream_position(self.stream_position() + n as u64),
+                .set_stream_position(value.stream_position() + n as u64),
             _ => unreachable!(),
         }
 
+        *self = value;
         Ok(self.stream_position())
     }
 
-- 
2.43.0


From ce42508d900e4f6f0838b9532ff0aef8d439ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 06/26] fix: identify the extents of a value by type, name and
 VCN instead of type and instance

---
 src/attribute.rs                              | 77 +++++++++++++++----
 .../attribute_list_non_resident.rs            | 51 ++++++------
 2 files changed, 89 insertions(+), 39 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 2d7aa03..7296ebe 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -14,8 +14,8 @@ use nt_string::u16strle::U16StrLe;
 use strum_macros::Display;
 
 use crate::attribute_value::{
-    NtfsAttributeListNonResidentAttributeValue, NtfsAttributeValue, NtfsNonResidentAttributeValue,
-    NtfsResidentAttributeValue,
+    AttributeListConnectedEntries, NtfsAttributeListNonResidentAttributeValue, NtfsAttributeValue,
+    NtfsNonResidentAttributeValue, NtfsResidentAttributeValue,
 };
 use crate::error::{NtfsError, Result};
 use crate::file::NtfsFile;
@@ -327,6 +327,12 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         LittleEndian::read_u64(&self.file.record_data()[start..])
     }
 
+    fn non_resident_value_lowest_vcn(&self) -> Vcn {
+        debug_assert!(!self.is_resident());
+        let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, lowest_vcn);
+        Vcn::from(LittleEndian::read_i64(&self.file.record_data()[start..]))
+    }
+
     fn non_resident_value_data_runs_offset(&self) -> u16 {
         debug_assert!(!self.is_resident());
         let start = self.offset + offset_of!(NtfsNonResidentAttributeHeader, data_runs_offset);
@@ -525,8 +531,6 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.file.ntfs(),
                 fs,
                 list_entries.clone(),
-                self.instance(),
-                self.ty()?,
                 data_size,
                 initialized_size,
             )?;
@@ -563,16 +567,54 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 #[derive(Clone, Debug)]
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
+    list: Option<NtfsAttributeList<'n, 'f>>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    list_skip_info: Option<(u16, NtfsAttributeType)>,
 }
 
 impl<'n, 'f> NtfsAttributes<'n, 'f> {
     pub(crate) fn new(file: &'f NtfsFile<'n>) -> Self {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
+            list: None,
             list_entries: None,
-            list_skip_info: None,
+        }
+    }
+
+    /// Checks whether the value of the given attribute of the raw iterator is continued in other attributes.
+    /// If that is the case, returns Attribute List entries where the next call to `next` yields the given attribute.
+    fn connected_list_entries<T>(
+        &self,
+        fs: &mut T,
+        attribute: &NtfsAttribute<'n, 'f>,
+    ) -> Result<Option<NtfsAttributeListEntries<'n, 'f>>>
+    where
+        T: Read + Seek,
+    {
+        let (list, ty) = match (&self.list, attribute.ty()) {
+            (Some(list), Ok(ty)) if !attribute.is_resident() => (list, ty),
+            _ => return Ok(None),
+        };
+        let file_record_number = self.raw_iter.file.file_record_number();
+        let mut list_entries = list.entries();
+
+        loop {
+            let list_entries_clone = list_entries.clone();
+
+            let entry = match list_entries.next(fs) {
+                Some(entry) => entry?,
+                None => return Ok(None),
+            };
+
+            if entry.base_file_reference().file_record_number() == file_record_number
+                && entry.instance() == attribute.instance()
+                && matches!(entry.ty(), Ok(entry_ty) if entry_ty == ty)
+            {
+                let mut connected_entries =
+                    AttributeListConnectedEntries::new(list_entries_clone.clone());
+                connected_entries.next(fs).transpose()?;
+                let is_connected = connected_entries.next(fs).transpose()?.is_some();
+                return Ok(is_connected.then_some(list_entries_clone));
+            }
         }
     }
 
@@ -606,9 +648,7 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                         Some(Err(e)) => return Some(Err(e)),
                         None => break,
                     };
-                    let entry_instance = entry.instance();
                     let entry_record_number = entry.base_file_reference().file_record_number();
-                    let entry_ty = iter_try!(entry.ty());
 
                     // Ignore all Attribute List entries that just repeat attributes of the raw iterator.
                     if entry_record_number == self.raw_iter.file.file_record_number() {
@@ -616,15 +656,11 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     }
 
                     // Ignore all Attribute List entries that are connected attributes of a previous one.
-                    if let Some((skip_instance, skip_ty)) = self.list_skip_info {
-                        if entry_instance == skip_instance && entry_ty == skip_ty {
-                            continue;
-                        }
+                    if entry.lowest_vcn().value() != 0 {
+                        continue;
                     }
 
                     // We found an attribute that we want to return.
-                    self.list_skip_info = None;
-
                     let ntfs = self.raw_iter.file.ntfs();
                     let entry_file = iter_try!(entry.to_file(ntfs, fs));
                     let entry_attribute = iter_try!(entry.to_attribute(&entry_file));
@@ -633,7 +669,6 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     let mut list_entries = None;
                     if !entry_attribute.is_resident() {
                         list_entries = Some(attribute_list_entries_clone);
-                        self.list_skip_info = Some((entry_instance, entry_ty));
                     }
 
                     let item = NtfsAttributeItem {
@@ -651,12 +686,22 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                 let attribute_list =
                     iter_try!(attribute.structured_value::<T, NtfsAttributeList>(fs));
                 self.list_entries = Some(attribute_list.entries());
+                self.list = Some(attribute_list);
             } else {
+                // Ignore attributes that only continue the value of another attribute in the Attribute List.
+                if self.list.is_some()
+                    && !attribute.is_resident()
+                    && attribute.non_resident_value_lowest_vcn().value() != 0
+                {
+                    continue;
+                }
+
+                let list_entries = iter_try!(self.connected_list_entries(fs, &attribute));
                 let item = NtfsAttributeItem {
                     attribute_file: self.raw_iter.file,
                     attribute_value_file: None,
                     attribute_offset: attribute.offset(),
-                    list_entries: None,
+                    list_entries,
                 };
                 return Some(Ok(item));
             }
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 3a41dad..da96208 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -9,7 +9,7 @@
 use binrw::io::{Read, Seek, SeekFrom};
 
 use super::{DataRunsState, NtfsDataRuns, StreamState};
-use crate::attribute::{NtfsAttribute, NtfsAttributeType};
+use crate::attribute::NtfsAttribute;
 use crate::error::{NtfsError, Result};
 use crate::file::NtfsFile;
 use crate::ntfs::Ntfs;
@@ -43,16 +43,13 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         ntfs: &'n Ntfs,
         fs: &mut T,
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
-        ty: NtfsAttributeType,
         data_size: u64,
         initialized_size: u64,
     ) -> Result<Self>
     where
         T: Read + Seek,
     {
-        let connected_entries =
-            AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
+        let connected_entries = AttributeListConnectedEntries::new(attribute_list_entries.clone());
         let stream_state = StreamState::new(data_size, initialized_size);
 
         let mut value = Self {
@@ -209,8 +206,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
+        self.connected_entries =
+            AttributeListConnectedEntries::new(self.initial_attribute_list_entries.clone());
+        self.attribute_state = None;
         self.stream_state.reset();
         self.next_attribute(fs)?;
 
@@ -304,39 +302,46 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
     }
 }
 
+/// Iterator over the Attribute List entries of all attributes that make up a single value.
+///
+/// Connected attributes share type and name, and all but the first one begin at a nonzero VCN.
+/// The instance number is of no help here, because it is only unique within a single File Record.
 #[derive(Clone, Debug)]
-struct AttributeListConnectedEntries<'n, 'f> {
+pub(crate) struct AttributeListConnectedEntries<'n, 'f> {
     attribute_list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    instance: u16,
-    ty: NtfsAttributeType,
+    first_entry: Option<NtfsAttributeListEntry>,
 }
 
 impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
-    fn new(
-        attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
-        ty: NtfsAttributeType,
-    ) -> Self {
+    /// Takes `attribute_list_entries` where the next call to `next` yields the first connected attribute.
+    pub(crate) fn new(attribute_list_entries: NtfsAttributeListEntries<'n, 'f>) -> Self {
         Self {
             attribute_list_entries: Some(attribute_list_entries),
-            instance,
-            ty,
+            first_entry: None,
         }
     }
 
-    fn next<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeListEntry>>
+    pub(crate) fn next<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeListEntry>>
     where
         T: Read + Seek,
     {
         let attribute_list_entries = self.attribute_list_entries.as_mut()?;
 
         let entry = iter_try!(attribute_list_entries.next(fs)?);
-        if entry.instance() == self.instance && iter_try!(entry.ty()) == self.ty {
-            Some(Ok(entry))
-        } else {
-            self.attribute_list_entries = None;
-            None
+        match &self.first_entry {
+            Some(first_entry) => {
+                if entry.lowest_vcn().value() == 0
+                    || iter_try!(entry.ty()) != iter_try!(first_entry.ty())
+                    || entry.name() != first_entry.name()
+                {
+                    self.attribute_list_entries = None;
+                    return None;
+                }
+            }
+            None => self.first_entry = Some(entry.clone()),
         }
+
+        Some(Ok(entry))
     }
 }
 
-- 
2.43.0


From 24f84c9a5ad3bef61768fb1b0a80c4c0574598c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 07/26] fix: continue a value behind an extent without data
 runs

---
 src/attribute_value/attribute_list_non_resident.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index da96208..76a5957 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -157,12 +157,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         let mut stream_data_runs = NtfsDataRuns::new(self.ntfs, data, position);
 
         // Get the first Data Run already here to save time and let `data_position` return something meaningful.
-        let stream_data_run = match stream_data_runs.next() {
-            Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
-        };
-        let stream_data_run = stream_data_run?;
-        self.stream_state.set_stream_data_run(Some(stream_data_run));
+        // An attribute without any Data Run is possible as well and then just continued by the next connected attribute.
+        let stream_data_run = stream_data_runs.next().transpose()?;
+        self.stream_state.set_stream_data_run(stream_data_run);
 
         // Store the `NtfsFile` and serialize the `NtfsDataRuns` state for a later iteration.
         let data_runs_state = Some(stream_data_runs.into_state());
-- 
2.43.0


From c4ddc6c24483a432274338d707bb520897dcc13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 08/26] fix: return an attribute again after an I/O error while
 iterating

---
 src/attribute.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index 7296ebe..d8ffd69 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -629,6 +629,21 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
 
     /// See [`Iterator::next`].
     pub fn next<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeItem<'n, 'f>>>
+    where
+        T: Read + Seek,
+    {
+        // An I/O error may be temporary.
+        // Don't advance in that case, so that a subsequent call tries to return the same attribute again.
+        let backup = self.clone();
+        let result = self.next_item(fs);
+        if let Some(Err(NtfsError::Io(_))) = result {
+            *self = backup;
+        }
+
+        result
+    }
+
+    fn next_item<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeItem<'n, 'f>>>
     where
         T: Read + Seek,
     {
-- 
2.43.0


From 56fbd2d19fdacca0effdb8d3c6f78e38daef4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 09/26] fix: reject index entries that are too small for their
 own fields

---
 src/index_entry.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 333d1a6..2026928 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -285,6 +285,20 @@ where
             });
         }
 
+        // An entry must at least consist of the header and the VCN if it indicates to have a subnode.
+        let mut min_length = INDEX_ENTRY_HEADER_SIZE;
+        if self.flags().contains(NtfsIndexEntryFlags::HAS_SUBNODE) {
+            min_length += mem::size_of::<Vcn>();
+        }
+
+        if (self.index_entry_length() as usize) < min_length {
+            return Err(NtfsError::InvalidIndexEntrySize {
+                position: self.position,
+                expected: min_length as u16,
+                actual: self.index_entry_length(),
+            });
+        }
+
         if self.index_entry_length() as usize > self.slice.len() {
             return Err(NtfsError::InvalidIndexEntrySize {
                 position: self.position,
-- 
2.43.0


From ec3694b75be27d3a3c5504ff82ac5d2ae3d78b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:34 +0000
Subject: [PATCH 10/26] fix: do not read index entries beyond the used size of
 an index record

---
 src/index_entry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 2026928..578b018 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -357,7 +357,10 @@ where
         // Get the current entry.
         let start = self.range.start;
         let position = self.position;
-        let entry = iter_try!(NtfsIndexEntry::<E>::new(&self.data[start..], position));
+        let entry = iter_try!(NtfsIndexEntry::<E>::new(
+            &self.data[start..self.range.end],
+            position
+        ));
         let end = start + entry.index_entry_length() as usize;
 
         if entry.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
-- 
2.43.0


From 12f371d028d268fe8d99633ddfaa7ba8903bbc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 11/26] fix: validate index record sizes and entry offsets
 before using them

---
 src/error.rs                        | 12 ++++++++++++
 src/index_record.rs                 | 27 +++++++++++++++++++++++++--
 src/structured_values/index_root.rs | 10 ++++++++++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5dfe797..164675d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -84,6 +84,12 @@ pub enum NtfsError {
         expected: u32,
         actual: u32,
     },
+    /// The NTFS index node at byte position {position:#x} indicates that its entries start at offset {entries_offset}, but this is not between the header and the used size of {index_size} bytes
+    InvalidIndexEntriesOffset {
+        position: NtfsPosition,
+        entries_offset: u32,
+        index_size: u32,
+    },
     /// The NTFS Index Entry at byte position {position:#x} references a data field in the range {range:?}, but the entry only has a size of {size} bytes
     InvalidIndexEntryDataRange {
         position: NtfsPosition,
@@ -96,6 +102,12 @@ pub enum NtfsError {
         expected: u16,
         actual: u16,
     },
+    /// The NTFS Index Record at byte position {position:#x} should have a size of {index_record_size} bytes, but this is too small for an Index Record or larger than the remaining {remaining_len} bytes of the index allocation
+    InvalidIndexRecordSize {
+        position: NtfsPosition,
+        index_record_size: u32,
+        remaining_len: u64,
+    },
     /// The NTFS index root at byte position {position:#x} indicates that its entries start at offset {expected}, but the index root only has a size of {actual} bytes
     InvalidIndexRootEntriesOffset {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 0ca2216..14e6293 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -66,6 +66,17 @@ impl NtfsIndexRecord {
     {
         let data_position = value.data_position();
 
+        // The size comes from the Index Root, so ensure that the headers and the entire record fit before using it.
+        let min_record_size = INDEX_RECORD_HEADER_SIZE + INDEX_NODE_HEADER_SIZE as u32;
+        let remaining_len = value.len().saturating_sub(value.stream_position());
+        if index_record_size < min_record_size || u64::from(index_record_size) > remaining_len {
+            return Err(NtfsError::InvalidIndexRecordSize {
+                position: data_position,
+                index_record_size,
+                remaining_len,
+            });
+        }
+
         let mut data = vec![0; index_record_size as usize];
         value.read_exact(fs, &mut data)?;
 
@@ -153,7 +164,8 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
+        let total_allocated_size =
+            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
@@ -164,7 +176,7 @@ impl NtfsIndexRecord {
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
+        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
@@ -173,6 +185,17 @@ impl NtfsIndexRecord {
             });
         }
 
+        // Finally, the entries must begin between the header and the end of the used size.
+        let entries_offset = self.index_entries_offset();
+        if entries_offset < INDEX_NODE_HEADER_SIZE as u32 || entries_offset > self.index_data_size()
+        {
+            return Err(NtfsError::InvalidIndexEntriesOffset {
+                position: self.record.position(),
+                entries_offset,
+                index_size: self.index_data_size(),
+            });
+        }
+
         Ok(())
     }
 
diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 7a7b6f3..8020933 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -153,6 +153,16 @@ impl<'f> NtfsIndexRoot<'f> {
             });
         }
 
+        let entries_offset = self.index_entries_offset();
+        if entries_offset < INDEX_NODE_HEADER_SIZE as u32 || entries_offset > self.index_data_size()
+        {
+            return Err(NtfsError::InvalidIndexEntriesOffset {
+                position: self.position,
+                entries_offset,
+                index_size: self.index_data_size(),
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From cd0967b226fbb1fb086784c623e4538fcd53f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 12/26] fix: count index record VCNs in 512-byte blocks if an
 index record is smaller than a cluster

---
 src/record.rs                             |  2 +-
 src/structured_values/index_allocation.rs | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 08b5295..8f8d8ee 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -10,7 +10,7 @@ use memoffset::{offset_of, span_of};
 use crate::error::{NtfsError, Result};
 use crate::types::NtfsPosition;
 
-const NTFS_BLOCK_SIZE: usize = 512;
+pub(crate) const NTFS_BLOCK_SIZE: usize = 512;
 
 #[repr(C, packed)]
 pub(crate) struct RecordHeader {
diff --git a/src/structured_values/index_allocation.rs b/src/structured_values/index_allocation.rs
index a5c72d6..3058143 100644
--- a/src/structured_values/index_allocation.rs
+++ b/src/structured_values/index_allocation.rs
@@ -10,6 +10,7 @@ use crate::attribute_value::NtfsAttributeValue;
 use crate::error::{NtfsError, Result};
 use crate::index_record::NtfsIndexRecord;
 use crate::ntfs::Ntfs;
+use crate::record::NTFS_BLOCK_SIZE;
 use crate::structured_values::NtfsStructuredValue;
 use crate::traits::NtfsReadSeek;
 use crate::types::Vcn;
@@ -54,7 +55,7 @@ impl<'n, 'f> NtfsIndexAllocation<'n, 'f> {
     {
         // Seek to the byte offset of the given VCN.
         let mut value = self.value.clone();
-        let offset = vcn.offset(self.ntfs)?;
+        let offset = self.vcn_offset(index_record_size, vcn)?;
         value.seek(fs, SeekFrom::Current(offset))?;
 
         if value.stream_position() >= value.len() {
@@ -79,6 +80,20 @@ impl<'n, 'f> NtfsIndexAllocation<'n, 'f> {
         Ok(record)
     }
 
+    /// Converts the VCN of an Index Record into a byte offset.
+    ///
+    /// The VCNs of Index Records only count clusters as long as an Index Record occupies at least one cluster.
+    /// Otherwise, they count blocks of 512 bytes.
+    fn vcn_offset(&self, index_record_size: u32, vcn: Vcn) -> Result<i64> {
+        if self.ntfs.cluster_size() > index_record_size {
+            vcn.value()
+                .checked_mul(NTFS_BLOCK_SIZE as i64)
+                .ok_or(NtfsError::VcnTooBig { vcn })
+        } else {
+            vcn.offset(self.ntfs)
+        }
+    }
+
     /// Returns an iterator over all Index Records of this $INDEX_ALLOCATION attribute (cf. [`NtfsIndexRecord`]).
     ///
     /// Each Index Record is fully read, fixed up, and validated.
-- 
2.43.0


From 5ef0e184ca6684a4fd8a8cd2687f19f98caf083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 13/26] fix: end index iterations and searches in cyclic
 indexes, and read a subnode again after an I/O error

---
 src/error.rs       |  2 ++
 src/index.rs       | 88 +++++++++++++++++++++++++++++-----------------
 src/index_entry.rs |  4 +++
 3 files changed, 61 insertions(+), 33 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 164675d..99b7528 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -29,6 +29,8 @@ pub enum NtfsError {
     },
     /// The given buffer should have at least {expected} bytes, but it only has {actual} bytes
     BufferTooSmall { expected: usize, actual: usize },
+    /// The NTFS Index Entry at byte position {position:#x} references the subnode with Virtual Cluster Number (VCN) {vcn}, but this subnode has already been visited
+    IndexSubnodeVisitedTwice { position: NtfsPosition, vcn: Vcn },
     /// The NTFS Attribute at byte position {position:#x} has a length of {expected} bytes, but only {actual} bytes are left in the record
     InvalidAttributeLength {
         position: NtfsPosition,
diff --git a/src/index.rs b/src/index.rs
index 02e0ff3..a98c296 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -4,6 +4,7 @@
 use core::cmp::Ordering;
 use core::marker::PhantomData;
 
+use alloc::collections::BTreeSet;
 use alloc::vec;
 use alloc::vec::Vec;
 use binrw::io::{Read, Seek};
@@ -13,9 +14,10 @@ use crate::error::{NtfsError, Result};
 use crate::index_entry::{
     IndexEntryRange, IndexNodeEntryRanges, NtfsIndexEntry, NtfsIndexEntryFlags,
 };
+use crate::index_record::NtfsIndexRecord;
 use crate::indexes::NtfsIndexEntryType;
 use crate::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
-use crate::types::NtfsPosition;
+use crate::types::{NtfsPosition, Vcn};
 
 /// Helper structure to iterate over all entries of an index or find a specific one.
 ///
@@ -86,6 +88,24 @@ where
         NtfsIndexEntries::new(self)
     }
 
+    /// Reads the subnode with the given VCN from the Index Allocation.
+    fn read_subnode<T>(&self, fs: &mut T, subnode_vcn: Vcn) -> Result<NtfsIndexRecord>
+    where
+        T: Read + Seek,
+    {
+        let index_allocation_item =
+            self.index_allocation_item
+                .as_ref()
+                .ok_or(NtfsError::MissingIndexAllocation {
+                    position: self.index_root_position,
+                })?;
+        let index_allocation_attribute = index_allocation_item.to_attribute()?;
+        let index_allocation =
+            index_allocation_attribute.structured_value::<_, NtfsIndexAllocation>(fs)?;
+
+        index_allocation.record_from_vcn(fs, self.index_record_size, subnode_vcn)
+    }
+
     /// Returns an [`NtfsIndexFinder`] structure to efficiently find an entry in this index.
     pub fn finder<'i>(&'i self) -> NtfsIndexFinder<'n, 'f, 'i, E> {
         NtfsIndexFinder::new(self)
@@ -106,6 +126,8 @@ where
     index: &'i NtfsIndex<'n, 'f, E>,
     inner_iterators: Vec<IndexNodeEntryRanges<E>>,
     following_entries: Vec<Option<IndexEntryRange<E>>>,
+    pending_entry: Option<IndexEntryRange<E>>,
+    visited_subnodes: BTreeSet<Vcn>,
 }
 
 impl<'n, 'f, 'i, E> NtfsIndexEntries<'n, 'f, 'i, E>
@@ -120,6 +142,8 @@ where
             index,
             inner_iterators,
             following_entries,
+            pending_entry: None,
+            visited_subnodes: BTreeSet::new(),
         }
     }
 
@@ -151,7 +175,8 @@ where
             let iter = self.inner_iterators.last_mut()?;
 
             // Get the next `IndexEntryRange` from it.
-            if let Some(entry_range) = iter.next() {
+            let next_entry = self.pending_entry.take().map(Ok);
+            if let Some(entry_range) = next_entry.or_else(|| iter.next()) {
                 let entry_range = iter_try!(entry_range);
 
                 // Convert that `IndexEntryRange` to a (lifetime-bound) `NtfsIndexEntry`.
@@ -162,24 +187,27 @@ where
                 if let Some(subnode_vcn) = entry.subnode_vcn() {
                     let subnode_vcn = iter_try!(subnode_vcn);
 
+                    // A subnode has exactly one parent, so visiting it again means that we are in a cycle.
+                    if self.visited_subnodes.contains(&subnode_vcn) {
+                        return Some(Err(NtfsError::IndexSubnodeVisitedTwice {
+                            position: entry_range.position(),
+                            vcn: subnode_vcn,
+                        }));
+                    }
+
                     // Read the subnode from the filesystem and get an iterator for it.
-                    let index_allocation_item =
-                        iter_try!(self.index.index_allocation_item.as_ref().ok_or(
-                            NtfsError::MissingIndexAllocation {
-                                position: self.index.index_root_position,
+                    let subnode = match self.index.read_subnode(fs, subnode_vcn) {
+                        Ok(subnode) => subnode,
+                        Err(e) => {
+                            // An I/O error may be temporary.
+                            // Save this entry in that case, so that a subsequent call tries to read its subnode again.
+                            if let NtfsError::Io(_) = e {
+                                self.pending_entry = Some(entry_range);
                             }
-                        ));
-                    let index_allocation_attribute =
-                        iter_try!(index_allocation_item.to_attribute());
-                    let index_allocation =
-                        iter_try!(index_allocation_attribute
-                            .structured_value::<_, NtfsIndexAllocation>(fs));
-
-                    let subnode = iter_try!(index_allocation.record_from_vcn(
-                        fs,
-                        self.index.index_record_size,
-                        subnode_vcn
-                    ));
+                            return Some(Err(e));
+                        }
+                    };
+                    self.visited_subnodes.insert(subnode_vcn);
                     let subnode_iter = subnode.into_entry_ranges();
 
                     let following_entry = if !is_last_entry {
@@ -263,6 +291,7 @@ where
     {
         // Always (re)start by iterating through the Index Root entry ranges.
         self.inner_iterator = self.index.index_root_entry_ranges.clone();
+        let mut visited_subnodes = BTreeSet::new();
 
         loop {
             // Get the next entry.
@@ -300,21 +329,14 @@ where
             // it comes lexicographically AFTER what we're looking for.
             // In both cases, we have to continue iterating in the subnode of this entry (if there is any).
             let subnode_vcn = iter_try!(entry.subnode_vcn()?);
-            let index_allocation_item = iter_try!(self.index.index_allocation_item.as_ref().ok_or(
-                NtfsError::MissingIndexAllocation {
-                    position: self.index.index_root_position,
-                }
-            ));
-            let index_allocation_attribute = iter_try!(index_allocation_item.to_attribute());
-            let index_allocation = iter_try!(
-                index_allocation_attribute.structured_value::<_, NtfsIndexAllocation>(fs)
-            );
-
-            let subnode = iter_try!(index_allocation.record_from_vcn(
-                fs,
-                self.index.index_record_size,
-                subnode_vcn
-            ));
+            if !visited_subnodes.insert(subnode_vcn) {
+                return Some(Err(NtfsError::IndexSubnodeVisitedTwice {
+                    position: entry_range.position(),
+                    vcn: subnode_vcn,
+                }));
+            }
+
+            let subnode = iter_try!(self.index.read_subnode(fs, subnode_vcn));
             self.inner_iterator = subnode.into_entry_ranges();
         }
     }
diff --git a/src/index_entry.rs b/src/index_entry.rs
index 578b018..2c75766 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -81,6 +81,10 @@ where
         }
     }
 
+    pub(crate) fn position(&self) -> NtfsPosition {
+        self.position
+    }
+
     pub(crate) fn to_entry<'s>(&self, slice: &'s [u8]) -> Result<NtfsIndexEntry<'s, E>> {
         NtfsIndexEntry::new(&slice[self.range.clone()], self.position)
     }
-- 
2.43.0


From b2116fa7f1eb7f2231a08dcd5357e30b4d97e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 14/26] fix: reject attributes that are too small for the
 header of their value

---
 src/attribute.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index d8ffd69..c5a7efa 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -28,6 +28,12 @@ use crate::types::{NtfsPosition, Vcn};
 /// Size of all [`NtfsAttributeHeader`] fields.
 const ATTRIBUTE_HEADER_SIZE: usize = 16;
 
+/// Size of all [`NtfsResidentAttributeHeader`] fields, rounded up to the attribute alignment.
+const RESIDENT_ATTRIBUTE_HEADER_SIZE: usize = 24;
+
+/// Size of all [`NtfsNonResidentAttributeHeader`] fields.
+const NON_RESIDENT_ATTRIBUTE_HEADER_SIZE: usize = 64;
+
 /// On-disk structure of the generic header of an NTFS Attribute.
 #[repr(C, packed)]
 struct NtfsAttributeHeader {
@@ -453,6 +459,20 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             });
         }
 
+        // The attribute must also have space for the extra header of its resident or non-resident value.
+        let header_size = if self.is_resident() {
+            RESIDENT_ATTRIBUTE_HEADER_SIZE
+        } else {
+            NON_RESIDENT_ATTRIBUTE_HEADER_SIZE
+        };
+        if attribute_length < header_size {
+            return Err(NtfsError::InvalidAttributeLength {
+                position: self.position(),
+                expected: header_size,
+                actual: attribute_length,
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 4190b42853f52172a74c0cf4947538aa4344d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 15/26] fix: do not read attributes beyond the used size of a
 file record

---
 src/attribute.rs | 12 ++++++++++++
 src/error.rs     |  6 ++++++
 src/file.rs      |  8 ++++++++
 3 files changed, 26 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index c5a7efa..9ddd03c 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -847,6 +847,11 @@ impl<'n, 'f> Iterator for NtfsAttributesRaw<'n, 'f> {
     type Item = Result<NtfsAttribute<'n, 'f>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Everything behind the used size of the File Record is not part of it.
+        if self.items_range.is_empty() {
+            return None;
+        }
+
         // This may be an entire attribute or just the 4-byte end marker.
         // Check if this marks the end of the attribute list.
         let start = self.items_range.start;
@@ -860,6 +865,13 @@ impl<'n, 'f> Iterator for NtfsAttributesRaw<'n, 'f> {
 
         // It's a real attribute.
         let attribute = iter_try!(NtfsAttribute::new(self.file, self.items_range.start, None));
+        if attribute.attribute_length() as usize > self.items_range.len() {
+            return Some(Err(NtfsError::InvalidAttributeLength {
+                position: attribute.position(),
+                expected: attribute.attribute_length() as usize,
+                actual: self.items_range.len(),
+            }));
+        }
         self.items_range.start += attribute.attribute_length() as usize;
 
         Some(Ok(attribute))
diff --git a/src/error.rs b/src/error.rs
index 99b7528..ee47984 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -66,6 +66,12 @@ pub enum NtfsError {
         expected: u32,
         actual: u32,
     },
+    /// The NTFS File Record at byte position {position:#x} indicates that its first attribute starts at offset {expected}, but only {actual} bytes are used
+    InvalidFileFirstAttributeOffset {
+        position: NtfsPosition,
+        expected: u16,
+        actual: u32,
+    },
     /// The requested NTFS File Record Number {file_record_number} is invalid
     InvalidFileRecordNumber { file_record_number: u64 },
     /// The NTFS File Record at byte position {position:#x} should have signature {expected:?}, but it has signature {actual:?}
diff --git a/src/file.rs b/src/file.rs
index b0bc5fc..9950db3 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -538,6 +538,14 @@ impl<'n> NtfsFile<'n> {
             });
         }
 
+        if u32::from(self.first_attribute_offset()) > self.data_size() {
+            return Err(NtfsError::InvalidFileFirstAttributeOffset {
+                position: self.record.position(),
+                expected: self.first_attribute_offset(),
+                actual: self.data_size(),
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From cb30f9ab9e8b24a287bf4bc3076f77de82e9afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 16/26] fix: do not take a data run with a VCN delta of zero
 for a sparse one

---
 src/attribute_value/non_resident.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 2a2208e..f4aa574 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -417,8 +417,9 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
             self.read_variable_length_signed_integer(&mut cursor, vcn_byte_count)
         ));
 
-        // The VCN may either indicate "real" data or a sparse Data Run.
-        let position = if vcn.value() != 0 {
+        // A Data Run may either have a VCN and indicate "real" data or be a sparse Data Run without a VCN.
+        // Note that a VCN of zero is not the same as no VCN (the `$Boot` file begins at LCN 0).
+        let position = if vcn_byte_count != 0 {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
             let new_lcn = iter_try!(self.state.previous_lcn.checked_add(vcn).ok_or(
@@ -429,10 +430,11 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                 }
             ));
             self.state.previous_lcn = new_lcn;
-            iter_try!(new_lcn.position(self.ntfs))
+            let position = iter_try!(new_lcn.position(self.ntfs));
+            Some(position.value().map_or(0, |position| position.get()))
         } else {
             // This is a sparse Data Run.
-            NtfsPosition::none()
+            None
         };
 
         // Only advance after having checked for success.
@@ -461,8 +463,8 @@ pub(crate) struct DataRunsState {
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct NtfsDataRun {
     /// Absolute position of the Data Run within the filesystem, in bytes.
-    /// This may be `NtfsPosition(None)` if this is a "sparse" Data Run.
-    position: NtfsPosition,
+    /// This may be `None` if this is a "sparse" Data Run.
+    position: Option<u64>,
     /// Total allocated size of the Data Run, in bytes.
     /// The actual size used by data may be lower, but a Data Run does not know about that.
     allocated_size: u64,
@@ -471,7 +473,7 @@ pub struct NtfsDataRun {
 }
 
 impl NtfsDataRun {
-    pub(crate) fn new(position: NtfsPosition, allocated_size: u64) -> Self {
+    pub(crate) fn new(position: Option<u64>, allocated_size: u64) -> Self {
         Self {
             position,
             allocated_size,
@@ -489,10 +491,11 @@ impl NtfsDataRun {
     ///   * The current seek position is outside the valid range, or
     ///   * The Data Run is a "sparse" Data Run
     pub fn data_position(&self) -> NtfsPosition {
-        if self.stream_position <= self.allocated_size() {
-            self.position + self.stream_position
-        } else {
-            NtfsPosition::none()
+        match self.position {
+            Some(position) if self.stream_position <= self.allocated_size() => {
+                NtfsPosition::new(position + self.stream_position)
+            }
+            _ => NtfsPosition::none(),
         }
     }
 
@@ -522,9 +525,9 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
         let work_slice = &mut buf[..bytes_to_read];
 
-        let bytes_read = if let Some(position) = self.position.value() {
+        let bytes_read = if let Some(position) = self.position {
             // This Data Run contains "real" data.
-            fs.seek(SeekFrom::Start(position.get() + self.stream_position))?;
+            fs.seek(SeekFrom::Start(position + self.stream_position))?;
             fs.read(work_slice)?
         } else {
             // This is a sparse Data Run.
-- 
2.43.0


From 4bf47da791f9a903555ea7f0e3d4c18cfc4a84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 17/26] fix: reject data runs that end beyond the addressable
 range

---
 src/attribute_value/non_resident.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index f4aa574..bc692b6 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -429,9 +429,16 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                     previous_lcn: self.state.previous_lcn,
                 }
             ));
-            self.state.previous_lcn = new_lcn;
             let position = iter_try!(new_lcn.position(self.ntfs));
-            Some(position.value().map_or(0, |position| position.get()))
+            let position = position.value().map_or(0, |position| position.get());
+
+            // The entire Data Run must be addressable.
+            if position.checked_add(allocated_size).is_none() {
+                return Some(Err(NtfsError::LcnTooBig { lcn: new_lcn }));
+            }
+
+            self.state.previous_lcn = new_lcn;
+            Some(position)
         } else {
             // This is a sparse Data Run.
             None
-- 
2.43.0


From a77d9a219fd09dfcf7363cf72bdc03005025edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 18/26] fix: report the data position of a resident value at
 its value instead of its attribute

---
 src/attribute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 9ddd03c..5c9df35 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -387,7 +387,9 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         let end = start + self.resident_value_length() as usize;
         let data = &self.file.record_data()[start..end];
 
-        Ok(NtfsResidentAttributeValue::new(data, self.position()))
+        let position = self.position() + self.resident_value_offset();
+
+        Ok(NtfsResidentAttributeValue::new(data, position))
     }
 
     fn resident_value_length(&self) -> u32 {
-- 
2.43.0


From f86afd539bf031b068b1c1120e942adf1c3445cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 19/26] fix: reject records whose update sequence does not
 cover all of their sectors

---
 src/record.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 8f8d8ee..1a7eaae 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -39,7 +39,7 @@ impl Record {
         let update_sequence_number = self.update_sequence_number()?;
         let array_count = self.update_sequence_array_count()?;
 
-        let mut array_position = self.update_sequence_array_start() as usize;
+        let mut array_position = self.update_sequence_array_start();
         let array_end =
             self.update_sequence_offset() as usize + self.update_sequence_size() as usize;
         let sectors_end = array_count as usize * NTFS_BLOCK_SIZE;
@@ -52,6 +52,14 @@ impl Record {
             });
         }
 
+        // Every sector needs to be covered. Otherwise, we could not detect a torn write of the remaining ones.
+        if sectors_end < self.data.len() {
+            return Err(NtfsError::InvalidUpdateSequenceCount {
+                position: self.position,
+                update_sequence_count: array_count + 1,
+            });
+        }
+
         // The Update Sequence Number (USN) is written to the last 2 bytes of each sector.
         let mut sector_position = NTFS_BLOCK_SIZE - mem::size_of::<u16>();
 
@@ -119,9 +127,9 @@ impl Record {
             })
     }
 
-    fn update_sequence_array_start(&self) -> u16 {
+    fn update_sequence_array_start(&self) -> usize {
         // The Update Sequence Number (USN) comes first and the array begins right after that.
-        self.update_sequence_offset() + mem::size_of::<u16>() as u16
+        self.update_sequence_offset() as usize + mem::size_of::<u16>()
     }
 
     fn update_sequence_number(&self) -> Result<[u8; 2]> {
-- 
2.43.0


From e8ba788fb8bc60d8bd328a68275e9d47aa5bbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 20/26] fix: print GUIDs with leading zeros

---
 src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guid.rs b/src/guid.rs
index db3e8f7..59c3e9e 100644
--- a/src/guid.rs
+++ b/src/guid.rs
@@ -21,7 +21,7 @@ impl fmt::Display for NtfsGuid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:8X}-{:4X}-{:4X}-{:2X}{:2X}-{:2X}{:2X}{:2X}{:2X}{:2X}{:2X}",
+            "{:08X}-{:04X}-{:04X}-{:02X}{:02X}-{:02X}{:02X}{:02X}{:02X}{:02X}{:02X}",
             self.data1,
             self.data2,
             self.data3,
-- 
2.43.0


From 909403e3df242da218876288cf40301e09a8e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 21/26] fix: read file records from the MFT value, also if they
 are split over data runs or exceed the MFT

---
 src/file.rs | 10 ++++++++++
 src/ntfs.rs | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index 9950db3..3d8cfce 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,6 +6,7 @@ use core::fmt;
 use core::num::NonZeroU64;
 
 use alloc::vec;
+use alloc::vec::Vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use bitflags::bitflags;
 use byteorder::{ByteOrder, LittleEndian};
@@ -144,6 +145,15 @@ impl<'n> NtfsFile<'n> {
         fs.seek(SeekFrom::Start(position.get()))?;
         fs.read_exact(&mut data)?;
 
+        Self::from_data(ntfs, data, position, file_record_number)
+    }
+
+    pub(crate) fn from_data(
+        ntfs: &'n Ntfs,
+        data: Vec<u8>,
+        position: NonZeroU64,
+        file_record_number: u64,
+    ) -> Result<Self> {
         let mut record = Record::new(data, position.into());
         Self::validate_signature(&record)?;
         record.fixup()?;
diff --git a/src/ntfs.rs b/src/ntfs.rs
index e560032..a1d5aa3 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -1,6 +1,7 @@
 // Copyright 2021-2023 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: MIT OR Apache-2.0
 
+use alloc::vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use binrw::BinReaderExt;
 
@@ -106,7 +107,17 @@ impl Ntfs {
             .value()
             .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
 
-        NtfsFile::new(self, fs, position, file_record_number)
+        // The File Record must lie entirely within the MFT.
+        // It may be split over multiple data runs though if it is larger than a cluster.
+        let remaining_len = mft_data_value.len().saturating_sub(offset);
+        if remaining_len < self.file_record_size as u64 {
+            return Err(NtfsError::InvalidFileRecordNumber { file_record_number });
+        }
+
+        let mut data = vec![0; self.file_record_size as usize];
+        mft_data_value.read_exact(fs, &mut data)?;
+
+        NtfsFile::from_data(self, data, position, file_record_number)
     }
 
     /// Returns the size of a File Record of this NTFS filesystem, in bytes.
-- 
2.43.0


From 64c6889580d8e9e0886c7887618445385e702531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 22/26] fix: report attribute list entries that exceed their
 attribute list

---
 src/structured_values/attribute_list.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index e9c7e05..acac7c9 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -145,6 +145,7 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let mut value_attached = value.clone().attach(fs);
         let position = value.data_position();
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut value_attached, position));
+        iter_try!(entry.validate_entry_end(value.len() - value.stream_position()));
 
         // Advance our iterator to the next entry.
         iter_try!(value.seek(fs, SeekFrom::Current(entry.list_entry_length() as i64)));
@@ -163,6 +164,7 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         // Get the current entry.
         let mut cursor = Cursor::new(*slice);
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut cursor, *position));
+        iter_try!(entry.validate_entry_end(slice.len() as u64));
 
         // Advance our iterator to the next entry.
         let bytes_to_advance = entry.list_entry_length() as usize;
@@ -207,7 +209,7 @@ impl NtfsAttributeListEntry {
     ///
     /// An instance number is unique within a single NTFS File Record.
     ///
-    /// Multiple entries of the same type and instance number form a connected attribute,
+    /// Multiple entries of the same type and name form a connected attribute,
     /// meaning an attribute whose value is stretched over multiple attributes.
     pub fn instance(&self) -> u16 {
         self.header.instance
@@ -298,6 +300,20 @@ impl NtfsAttributeListEntry {
         })
     }
 
+    /// Validates that this entry ends within the $ATTRIBUTE_LIST value (with `remaining_len` bytes from the beginning of this entry).
+    fn validate_entry_end(&self, remaining_len: u64) -> Result<()> {
+        if self.list_entry_length() as u64 > remaining_len {
+            return Err(NtfsError::InvalidStructuredValueSize {
+                position: self.position(),
+                ty: NtfsAttributeType::AttributeList,
+                expected: self.list_entry_length() as u64,
+                actual: remaining_len,
+            });
+        }
+
+        Ok(())
+    }
+
     fn validate_entry_and_name_length(&self) -> Result<()> {
         let total_size = ATTRIBUTE_LIST_ENTRY_HEADER_SIZE + self.name_length();
 
-- 
2.43.0


From 577b7a3bed94abecd2831150fbd0698f23fc053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 23/26] fix: apply the limits of file record sizes also to
 sizes in clusters

---
 src/boot_sector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/boot_sector.rs b/src/boot_sector.rs
index 6128e43..ac9d19a 100644
--- a/src/boot_sector.rs
+++ b/src/boot_sector.rs
@@ -98,8 +98,12 @@ impl BiosParameterBlock {
 
         if size_info > 0 {
             // The size field denotes a cluster count.
+            // The result must fulfill the same requirements as one from an exponent.
             cluster_size
                 .checked_mul(size_info as u32)
+                .filter(|size| {
+                    size.is_power_of_two() && EXPONENT_RANGE.contains(&size.trailing_zeros())
+                })
                 .ok_or(NtfsError::InvalidRecordSizeInfo {
                     size_info,
                     cluster_size,
-- 
2.43.0


From cb04a17d00dcdd254e9a709d9af066fd949f3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 24/26] fix: do not panic on I/O errors while reading the field
 of a structure

---
 src/error.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index ee47984..68d52c1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -249,6 +249,12 @@ pub enum NtfsError {
 
 impl From<binrw::error::Error> for NtfsError {
     fn from(error: binrw::error::Error) -> Self {
+        // binrw wraps errors that occur while reading the field of a structure.
+        let error = match error {
+            binrw::error::Error::Backtrace(backtrace) => *backtrace.error,
+            error => error,
+        };
+
         if let binrw::error::Error::Io(io_error) = error {
             Self::Io(io_error)
         } else {
-- 
2.43.0


From cf49ff539b909af29e3531ce37591a0cedf20638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 25/26] fix: round down sub-100ns parts of times before the
 Unix epoch

---
 src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index f86dd87..d41ab66 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -39,7 +39,7 @@ impl TryFrom<OffsetDateTime> for NtfsTime {
 
     fn try_from(dt: OffsetDateTime) -> Result<Self, Self::Error> {
         let nanos_since_unix_epoch = dt.unix_timestamp_nanos();
-        let intervals_since_unix_epoch = nanos_since_unix_epoch / 100;
+        let intervals_since_unix_epoch = nanos_since_unix_epoch.div_euclid(100);
         let intervals_since_windows_epoch =
             intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS as i128;
         let nt_timestamp =
-- 
2.43.0


From 981c3734ecc8c1ed8958c71713c16d885a3573ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 26/26] fix: report system times that exceed an NTFS timestamp

---
 src/time.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index d41ab66..b59d36b 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -69,12 +69,20 @@ impl TryFrom<SystemTime> for NtfsTime {
 
     fn try_from(st: SystemTime) -> Result<Self, Self::Error> {
         let duration_since_unix_epoch = st.duration_since(SystemTime::UNIX_EPOCH)?;
-        let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() * INTERVALS_PER_SECOND
-            + duration_since_unix_epoch.subsec_nanos() as u64 / 100;
+        let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() as u128
+            * INTERVALS_PER_SECOND as u128
+            + duration_since_unix_epoch.subsec_nanos() as u128 / 100;
         let intervals_since_windows_epoch =
-            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS;
-
-        Ok(Self(intervals_since_windows_epoch))
+            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS as u128;
+
+        match u64::try_from(intervals_since_windows_epoch) {
+            Ok(nt_timestamp) => Ok(Self(nt_timestamp)),
+            // A `SystemTimeError` can only be obtained from `duration_since`.
+            // This one always fails, because `st` is way later than the Unix epoch here.
+            Err(_) => SystemTime::UNIX_EPOCH
+                .duration_since(st)
+                .map(|_| unreachable!()),
+        }
     }
 }
 
-- 
2.43.0

