From 9ec7fca2eae5d07847c11ce9af0fa1fc520a6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:24 +0000
Subject: [PATCH 01/34] fix: report the YEAR value 0000 as 0 instead of 1900

---
 src/events/row_events/col_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index df78fef..6eb7a24 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -28,7 +28,9 @@ pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>,
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
-    Ok(1900 + cursor.read_u8()? as u16)
+    let value = cursor.read_u8()? as u16;
+    // Zero stands for the year 0000.
+    Ok(if value == 0 { 0 } else { 1900 + value })
 }
 
 pub fn parse_date(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<Date, Error> {
-- 
2.43.0


From 14ae3d6500d169535f4d05e0e24233a47f79c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 02/34] fix: do not take the flags of a MariaDB GTID_LIST event
 for a part of its length

---
 src/providers/mariadb/events/gtid_list_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/providers/mariadb/events/gtid_list_event.rs b/src/providers/mariadb/events/gtid_list_event.rs
index 18443e6..9f91edc 100644
--- a/src/providers/mariadb/events/gtid_list_event.rs
+++ b/src/providers/mariadb/events/gtid_list_event.rs
@@ -14,7 +14,8 @@ pub struct GtidListEvent {
 impl GtidListEvent {
     /// Parses events in MariaDB.
     pub fn parse(cursor: &mut Cursor<&[u8]>) -> Result<Self, Error> {
-        let gtid_list_len = cursor.read_u32::<LittleEndian>()?;
+        // The upper 4 bits of the number of gtids are flags.
+        let gtid_list_len = cursor.read_u32::<LittleEndian>()? & 0x0FFFFFFF;
 
         let mut gtid_list = GtidList::new();
         for _i in 0..gtid_list_len {
-- 
2.43.0


From 35873d9b878ff24924ba9654aeb9e29062c2de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:26 +0000
Subject: [PATCH 03/34] fix: accept user variables without flags, as servers
 log them for all types but integers

---
 src/events/uservar_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events/uservar_event.rs b/src/events/uservar_event.rs
index b7ca715..a5fd95c 100644
--- a/src/events/uservar_event.rs
+++ b/src/events/uservar_event.rs
@@ -47,7 +47,8 @@ impl UserVarEvent {
         let value_len = cursor.read_u32::<LittleEndian>()?;
         let value = read_string(cursor, value_len as usize)?;
 
-        let flags = cursor.read_u8()?;
+        // Servers write the flags for integer variables only.
+        let flags = cursor.read_u8().unwrap_or(0);
 
         Ok(Self {
             name,
-- 
2.43.0


From 95e1e70e6651780f5ca06fca6590f630bc5392dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 04/34] fix: do not overflow on format description events a
 little longer than 255 bytes

---
 src/events/format_description_event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events/format_description_event.rs b/src/events/format_description_event.rs
index b2d76d1..c264df3 100644
--- a/src/events/format_description_event.rs
+++ b/src/events/format_description_event.rs
@@ -46,7 +46,8 @@ impl FormatDescriptionEvent {
         let payload_length = cursor.read_u8()?;
 
         let mut checksum_type = ChecksumType::None;
-        if payload_length != header.event_length as u8 - constants::EVENT_HEADER_SIZE as u8 {
+        let event_length = header.event_length as u8; // The payload length is stored modulo 256
+        if payload_length != event_length.wrapping_sub(constants::EVENT_HEADER_SIZE as u8) {
             let skip = payload_length as i64
                 - EVENT_TYPES_OFFSET as i64
                 - EventType::FormatDescriptionEvent as i64;
-- 
2.43.0


From 70247758fe8b794825c7e11b96acaf046f553c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 05/34] fix: reject texts that are not a UUID instead of
 panicking, and print UUIDs canonically

---
 src/providers/mysql/gtid/uuid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/gtid/uuid.rs b/src/providers/mysql/gtid/uuid.rs
index 897efb9..c7b240f 100644
--- a/src/providers/mysql/gtid/uuid.rs
+++ b/src/providers/mysql/gtid/uuid.rs
@@ -24,10 +24,11 @@ impl Uuid {
         let hex = uuid.replace("-", "");
         let vec = hex::decode(hex)?;
 
-        let mut data = [0u8; 16];
-        (0..16).for_each(|i| data[i] = vec[i]);
+        let data: [u8; 16] = vec
+            .try_into()
+            .map_err(|_| Error::String(format!("Invalid uuid format {}", uuid)))?;
 
-        Ok(Self { data, uuid })
+        Ok(Self::new(data))
     }
 }
 
-- 
2.43.0


From 6ceee3e7d94f36f650cd2403b971648e79792fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:13 +0000
Subject: [PATCH 06/34] fix: merge unordered and overlapping intervals and
 repeated servers of a GTID set

---
 src/providers/mysql/gtid/gtid_set.rs | 6 +++++-
 src/providers/mysql/gtid/uuid_set.rs | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 3bb8cc8..8056fcb 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -32,7 +32,7 @@ impl GtidSet {
         let gtid_set = gtid_set.replace("\n", "");
         let uuid_sets = gtid_set.split(',').map(|x| x.trim()).collect::<Vec<&str>>();
 
-        let mut result = HashMap::new();
+        let mut result: HashMap<String, UuidSet> = HashMap::new();
         for uuid_set in uuid_sets {
             let source_id: String = uuid_set.chars().take(UUID_LENGTH).collect();
             let source_id = Uuid::parse(source_id)?;
@@ -50,6 +50,10 @@ impl GtidSet {
                 };
                 intervals.push(interval);
             }
+            // The same server may be listed more than once
+            if let Some(listed) = result.remove(&source_id.uuid) {
+                intervals.extend(listed.intervals);
+            }
             result.insert(source_id.uuid.clone(), UuidSet::new(source_id, intervals));
         }
 
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 32c2122..72ea998 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -17,6 +17,7 @@ pub struct UuidSet {
 impl UuidSet {
     pub fn new(source_id: Uuid, mut intervals: Vec<Interval>) -> Self {
         if intervals.len() > 1 {
+            intervals.sort_by_key(|x| x.start);
             collapse_intervals(&mut intervals);
         }
         Self {
@@ -88,8 +89,8 @@ pub fn collapse_intervals(intervals: &mut Vec<Interval>) {
         let right_end = intervals[index + 1].end;
 
         let mut left = &mut intervals[index];
-        if left.end + 1 == right_start {
-            left.end = right_end;
+        if right_start <= left.end.saturating_add(1) {
+            left.end = left.end.max(right_end);
             intervals.remove(index + 1);
         } else {
             index += 1;
-- 
2.43.0


From 03751c329a286fce128222bebdad021b49b4e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 07/34] fix: reject malformed entries of a GTID list instead of
 panicking

---
 src/providers/mariadb/gtid/gtid_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mariadb/gtid/gtid_list.rs b/src/providers/mariadb/gtid/gtid_list.rs
index d3216fd..c00b486 100644
--- a/src/providers/mariadb/gtid/gtid_list.rs
+++ b/src/providers/mariadb/gtid/gtid_list.rs
@@ -29,6 +29,9 @@ impl GtidList {
 
         for gtid in gtid_list {
             let components = gtid.split('-').collect::<Vec<&str>>();
+            if components.len() != 3 {
+                return Err(Error::String(format!("Invalid gtid format {}", gtid)));
+            }
             let domain_id: u32 = components[0].parse()?;
             let server_id: u32 = components[1].parse()?;
             let sequence: u64 = components[2].parse()?;
-- 
2.43.0


From 3f4bfb1e2a68572274bde4b4d910d65c1548b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 08/34] fix: do not take an undecodable event of a binlog file
 for the end of the file

---
 src/binlog_reader.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/binlog_reader.rs b/src/binlog_reader.rs
index e5b5c53..f179ac1 100644
--- a/src/binlog_reader.rs
+++ b/src/binlog_reader.rs
@@ -42,23 +42,41 @@ impl BinlogReader {
         self.stream.read_exact(&mut header_buffer)?;
         let header = EventHeader::parse(&header_buffer)?;
 
-        let payload_length = header.event_length as usize - EVENT_HEADER_SIZE;
+        let payload_length = (header.event_length as usize)
+            .checked_sub(EVENT_HEADER_SIZE)
+            .ok_or_else(|| Error::String("Invalid event length".to_string()))?;
         if payload_length as usize > constants::PAYLOAD_BUFFER_SIZE {
             let mut vec: Vec<u8> = vec![0; payload_length];
 
             self.stream.read_exact(&mut vec)?;
-            let binlog_event = self.parser.parse_event(&header, &vec)?;
+            let binlog_event = decode_event(&mut self.parser, &header, &vec)?;
             Ok((header, binlog_event))
         } else {
             let slice = &mut self.payload_buffer[0..payload_length];
 
             self.stream.read_exact(slice)?;
-            let binlog_event = self.parser.parse_event(&header, slice)?;
+            let binlog_event = decode_event(&mut self.parser, &header, slice)?;
             Ok((header, binlog_event))
         }
     }
 }
 
+/// An event that ends too early isn't the end of the file.
+fn decode_event(
+    parser: &mut EventParser,
+    header: &EventHeader,
+    slice: &[u8],
+) -> Result<BinlogEvent, Error> {
+    parser
+        .parse_event(header, slice)
+        .map_err(|error| match error {
+            Error::IoError(e) if e.kind() == ErrorKind::UnexpectedEof => {
+                Error::String(format!("Event is too short. {}", e))
+            }
+            error => error,
+        })
+}
+
 impl Iterator for BinlogReader {
     type Item = Result<(EventHeader, BinlogEvent), Error>;
 
-- 
2.43.0


From 5ae5f53281be829c2252160b5f7a19c4bc1047c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 09/34] fix: report an event shorter than its checksum as an
 error instead of panicking

---
 src/events/event_parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/events/event_parser.rs b/src/events/event_parser.rs
index 2dfcef7..e46ee1c 100644
--- a/src/events/event_parser.rs
+++ b/src/events/event_parser.rs
@@ -46,7 +46,12 @@ impl EventParser {
         // Consider verifying checksum
         let mut cursor = match self.checksum_type {
             ChecksumType::None => Cursor::new(slice),
-            ChecksumType::Crc32 => Cursor::new(&slice[0..slice.len() - 4]),
+            ChecksumType::Crc32 => {
+                let length = slice.len().checked_sub(4).ok_or_else(|| {
+                    Error::String("Event is too short to have a checksum".to_string())
+                })?;
+                Cursor::new(&slice[0..length])
+            }
         };
 
         let binlog_event: BinlogEvent = match EventType::from_code(header.event_type) {
-- 
2.43.0


From 063fe996cb162a5de8d273acdbd193afc48edc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:17 +0000
Subject: [PATCH 10/34] fix: report an empty packet as an error instead of
 panicking

---
 src/packet_channel.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index dae50a0..784827c 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -28,6 +28,13 @@ impl PacketChannel {
         let mut packet: Vec<u8> = vec![0; packet_size as usize];
         self.stream.read_exact(&mut packet)?;
 
+        if packet.is_empty() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "Received an empty packet",
+            ));
+        }
+
         Ok((packet, seq_num))
     }
 
-- 
2.43.0


From 490ef22e7da58fe19f0980865391e312d763cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:18 +0000
Subject: [PATCH 11/34] fix: report set-up result sets without the expected
 cells as an error instead of panicking

---
 src/configure.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/configure.rs b/src/configure.rs
index 453616e..aebaeec 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -29,8 +29,16 @@ impl BinlogClient {
             ));
         }
 
-        self.options.binlog.filename = result_set[0].cells[0].clone();
-        self.options.binlog.position = result_set[0].cells[1].parse()?;
+        let cells = &result_set[0].cells;
+        if cells.len() < 2 {
+            return Err(Error::String(
+                "Could not read master binlog position.".to_string(),
+            ));
+        }
+
+        let position = cells[1].parse()?;
+        self.options.binlog.filename = cells[0].clone();
+        self.options.binlog.position = position;
         Ok(())
     }
 
@@ -61,7 +69,12 @@ impl BinlogClient {
 
         // When replication is started fake RotateEvent comes before FormatDescriptionEvent.
         // In order to deserialize the event we have to obtain checksum type length in advance.
-        Ok(ChecksumType::from_name(&result_set[0].cells[0])?)
+        match result_set.first().and_then(|x| x.cells.first()) {
+            Some(name) => Ok(ChecksumType::from_name(name)?),
+            None => Err(Error::String(
+                "Could not read master binlog checksum.".to_string(),
+            )),
+        }
     }
 
     fn read_result_set(
-- 
2.43.0


From b9e9423faabe0efaf6b21da5d2ba7e5d7117c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:21 +0000
Subject: [PATCH 12/34] fix: read the server's final answer after
 caching_sha2_password fast authentication

---
 src/connect.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 6d1b61a..a9f8525 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -116,8 +116,15 @@ impl BinlogClient {
         use_ssl: bool,
     ) -> Result<(), Error> {
         // See https://mariadb.com/kb/en/caching_sha2_password-authentication-plugin/
-        // Success authentication.
-        if packet[0] == 0x01 && packet[1] == 0x03 {
+        // Accepted at once, e.g. an empty password.
+        if packet[0] == ResponseType::OK {
+            return Ok(());
+        }
+
+        // Success authentication. The server's final answer follows.
+        if packet[0] == 0x01 && packet.get(1) == Some(&0x03) {
+            let (packet, _seq_num) = channel.read_packet()?;
+            check_error_packet(&packet, "Authentication error.")?;
             return Ok(());
         }
 
-- 
2.43.0


From 013a3173800b0b0b9ea545c6cc11d0e3334f6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:22 +0000
Subject: [PATCH 13/34] fix: report an authentication challenge without
 scramble as an error instead of panicking

---
 src/connect.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/connect.rs b/src/connect.rs
index a9f8525..9132308 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -146,6 +146,9 @@ impl BinlogClient {
 
         // Extract public key.
         let public_key = &packet[1..];
+        if scramble.is_empty() {
+            return Err(Error::String("The server sent no scramble".to_string()));
+        }
         let encrypted_password = xor(&password, &scramble.as_bytes());
 
         let rsa = Rsa::public_key_from_pem(public_key)?;
-- 
2.43.0


From c7901d09cee84df941ebf2341d6822c56bb5fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:23 +0000
Subject: [PATCH 14/34] fix: answer with an empty proof if the password is
 empty

---
 src/extensions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index c9257c1..332f6c1 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -9,6 +9,10 @@ use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
 
 pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &AuthPlugin) -> Vec<u8> {
+    // An empty password is answered with an empty proof
+    if password.is_empty() {
+        return Vec::new();
+    }
     match auth_plugin {
         AuthPlugin::MySqlNativePassword => {
             let password_hash = sha1(password.as_bytes());
-- 
2.43.0


From eaedf44af5b067e20ea9335daff2874b01710d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:24 +0000
Subject: [PATCH 15/34] fix: do not restrict replication by MySQL GTID to the
 recorded binlog file

---
 src/providers/mysql/mysql_provider.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/providers/mysql/mysql_provider.rs b/src/providers/mysql/mysql_provider.rs
index 36c92d5..1b9eee1 100644
--- a/src/providers/mysql/mysql_provider.rs
+++ b/src/providers/mysql/mysql_provider.rs
@@ -1,5 +1,6 @@
 use crate::commands::dump_binlog_command::DumpBinlogCommand;
 use crate::commands::dump_binlog_gtid_command::DumpBinlogGtidCommand;
+use crate::constants::FIRST_EVENT_POSITION;
 use crate::errors::Error;
 use crate::packet_channel::PacketChannel;
 use crate::replica_options::ReplicaOptions;
@@ -12,10 +13,12 @@ pub fn replicate_mysql(
 ) -> Result<(), Error> {
     if options.binlog.starting_strategy == StartingStrategy::FromGtid {
         if let Some(gtid_set) = &options.binlog.gtid_set {
+            // The gtid set alone tells where to start. A file name, read by the client earlier and
+            // maybe from another server, would make the server skip the files before it.
             let command = DumpBinlogGtidCommand::new(
                 server_id,
-                options.binlog.filename.clone(),
-                options.binlog.position,
+                String::new(),
+                FIRST_EVENT_POSITION as u32,
             );
             channel.write_packet(&command.serialize(&gtid_set)?, 0)?
         } else {
-- 
2.43.0


From 5c4d2121380a3771fa071393b2f2d6d0a61d1ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 16/34] fix: do not credit a MariaDB transaction before its end
 when a statement is committed

---
 src/binlog_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index cf7b19a..f446e9d 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -11,6 +11,9 @@ use crate::replica_options::ReplicaOptions;
 use crate::ssl_mode::SslMode;
 use crate::starting_strategy::StartingStrategy;
 
+/// The event group has a single event and no COMMIT.
+const MARIADB_FL_STANDALONE: u8 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -74,6 +77,8 @@ impl BinlogClient {
         match event {
             BinlogEvent::MariaDbGtidEvent(x) => {
                 self.maria_gtid = Some(x.gtid.clone());
+                // MariaDB has no BEGIN query, the event itself opens the transaction.
+                self.transaction = x.flags & MARIADB_FL_STANDALONE == 0;
             }
             BinlogEvent::MySqlGtidEvent(x) => {
                 self.mysql_gtid = Some(x.gtid.clone());
-- 
2.43.0


From 0077e7c7c09f6b9d18c03d1c31c06b1ee0ae16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:26 +0000
Subject: [PATCH 17/34] fix: update the GTID position at the end of XA
 transactions only

---
 src/binlog_client.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index f446e9d..a357c2e 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -14,6 +14,9 @@ use crate::starting_strategy::StartingStrategy;
 /// The event group has a single event and no COMMIT.
 const MARIADB_FL_STANDALONE: u8 = 1;
 
+/// Ends the event group of an XA transaction.
+const XA_PREPARE_EVENT: u8 = 38;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -65,11 +68,11 @@ impl BinlogClient {
 
     /// Updates current replication position
     pub fn commit(&mut self, header: &EventHeader, event: &BinlogEvent) {
-        self.update_gtid_position(event);
+        self.update_gtid_position(header, event);
         self.update_binlog_position(header, event);
     }
 
-    fn update_gtid_position(&mut self, event: &BinlogEvent) {
+    fn update_gtid_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         if self.options.binlog.starting_strategy != StartingStrategy::FromGtid {
             return;
         }
@@ -90,8 +93,12 @@ impl BinlogClient {
                 if x.sql_statement.is_empty() {
                     return;
                 }
-                if x.sql_statement == "BEGIN" {
+                if x.sql_statement == "BEGIN" || x.sql_statement.starts_with("XA START") {
                     self.transaction = true;
+                } else if x.sql_statement.starts_with("XA COMMIT")
+                    || x.sql_statement.starts_with("XA ROLLBACK")
+                {
+                    self.commit_gtid();
                 } else if x.sql_statement == "COMMIT" || x.sql_statement == "ROLLBACK" {
                     self.commit_gtid();
                 } else if !self.transaction {
@@ -99,6 +106,9 @@ impl BinlogClient {
                     self.commit_gtid();
                 }
             }
+            BinlogEvent::UnknownEvent if header.event_type == XA_PREPARE_EVENT => {
+                self.commit_gtid();
+            }
             _ => {}
         }
     }
-- 
2.43.0


From f6502281731e868251ff9880445ad4296951cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 18/34] fix: do not move the position between the row events of
 a statement

---
 src/binlog_client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index a357c2e..d9ffd9f 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -17,6 +17,9 @@ const MARIADB_FL_STANDALONE: u8 = 1;
 /// Ends the event group of an XA transaction.
 const XA_PREPARE_EVENT: u8 = 38;
 
+/// The row event is the last one of its statement.
+const ROWS_STMT_END: u16 = 1;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -116,9 +119,12 @@ impl BinlogClient {
     fn update_binlog_position(&mut self, header: &EventHeader, event: &BinlogEvent) {
         // Rows event depends on preceding TableMapEvent & we change the position
         // after we read them atomically to prevent missing mapping on reconnect.
-        // Figure out something better as TableMapEvent can be followed by several row events.
+        // TableMapEvent can be followed by several row events, the last one of the statement is flagged.
         match event {
             BinlogEvent::TableMapEvent(_) => return,
+            BinlogEvent::WriteRowsEvent(x) if x.flags & ROWS_STMT_END == 0 => return,
+            BinlogEvent::UpdateRowsEvent(x) if x.flags & ROWS_STMT_END == 0 => return,
+            BinlogEvent::DeleteRowsEvent(x) if x.flags & ROWS_STMT_END == 0 => return,
             BinlogEvent::RotateEvent(x) => {
                 self.options.binlog.filename = x.binlog_filename.clone();
                 self.options.binlog.position = x.binlog_position as u32;
-- 
2.43.0


From d7d38127fda8926befebae671d4df1fbddf4cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:28 +0000
Subject: [PATCH 19/34] fix: write packets completely

---
 src/packet_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 784827c..c8c7f72 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -42,7 +42,7 @@ impl PacketChannel {
         let packet_len = packet.len() as u32;
         self.stream.write_u24::<LittleEndian>(packet_len)?;
         self.stream.write_u8(seq_num)?;
-        self.stream.write(packet)?;
+        self.stream.write_all(packet)?;
         Ok(())
     }
 
-- 
2.43.0


From 29cd77d1e392a306600e557bf7a8e5f5283e32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 20/34] fix: join events of 16 MB and more, which servers split
 into several packets

---
 src/packet_channel.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index c8c7f72..8cfa0cb 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -2,7 +2,7 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use std::io::{self, Read, Write};
 use std::net::TcpStream;
 
-use crate::constants::{PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
+use crate::constants::{MAX_BODY_LENGTH, PACKET_HEADER_SIZE, TIMEOUT_LATENCY_DELTA};
 use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
@@ -22,12 +22,23 @@ impl PacketChannel {
         let mut header_buffer = [0; PACKET_HEADER_SIZE];
 
         self.stream.read_exact(&mut header_buffer)?;
-        let packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()?;
-        let seq_num = header_buffer[3];
+        let mut packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()? as usize;
+        let mut seq_num = header_buffer[3];
 
-        let mut packet: Vec<u8> = vec![0; packet_size as usize];
+        let mut packet: Vec<u8> = vec![0; packet_size];
         self.stream.read_exact(&mut packet)?;
 
+        // A packet of the maximum size is continued in the next one
+        while packet_size == MAX_BODY_LENGTH {
+            self.stream.read_exact(&mut header_buffer)?;
+            packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()? as usize;
+            seq_num = header_buffer[3];
+
+            let length = packet.len();
+            packet.resize(length + packet_size, 0);
+            self.stream.read_exact(&mut packet[length..])?;
+        }
+
         if packet.is_empty() {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidData,
-- 
2.43.0


From a042b4d6e15b7c069adab2b671d4f100fd2498a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:46 +0000
Subject: [PATCH 21/34] fix: reject a GTID set without a colon between server
 and intervals

---
 src/providers/mysql/gtid/gtid_set.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 8056fcb..6d74850 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -38,7 +38,10 @@ impl GtidSet {
             let source_id = Uuid::parse(source_id)?;
 
             let mut intervals = Vec::new();
-            let ranges: String = uuid_set.chars().skip(UUID_LENGTH + 1).collect();
+            let ranges: String = uuid_set.chars().skip(UUID_LENGTH).collect();
+            let ranges = ranges
+                .strip_prefix(':')
+                .ok_or_else(|| Error::String(format!("Invalid GtidSet format {}", uuid_set)))?;
             let ranges = ranges.split(':').collect::<Vec<&str>>();
 
             for token in ranges {
-- 
2.43.0


From c129565fa2a7f9fa0087e132a4200e21c2cd3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:42 +0000
Subject: [PATCH 22/34] fix: caching_sha2_password proof hashes the scramble
 after the password hash

The server checks XOR(SHA256(password), SHA256(SHA256(SHA256(password)), scramble)); with the
operands the other way round the proof never matched and only full authentication could succeed.
---
 src/extensions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 332f6c1..6b3d272 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -21,7 +21,8 @@ pub fn encrypt_password(password: &String, scramble: &String, auth_plugin: &Auth
         }
         AuthPlugin::CachingSha2Password => {
             let password_hash = sha256(password.as_bytes());
-            let concat_hash = [scramble.as_bytes().to_vec(), sha256(&password_hash)].concat();
+            // Unlike in mysql_native_password the scramble comes last
+            let concat_hash = [sha256(&password_hash), scramble.as_bytes().to_vec()].concat();
             xor(&password_hash, &sha256(&concat_hash))
         }
     }
-- 
2.43.0


From 42f6c4d4366c41463b82dd90351bd31f94a1997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 23/34] fix: check stated sizes before memory is allocated for
 them

---
 src/events/row_events/col_parser.rs |  8 +++-----
 src/events/table_map_event.rs       |  7 +++----
 src/extensions.rs                   | 23 ++++++++++++++++++++---
 src/metadata/table_metadata.rs      | 10 +++++-----
 4 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 6eb7a24..399aa1b 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,8 +1,8 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_string};
+use crate::extensions::{read_bitmap_big_endian, read_bytes, read_string};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read};
+use std::io::Cursor;
 
 pub fn parse_string(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let length = if metadata < 256 {
@@ -22,9 +22,7 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
     let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
-    let mut vec = vec![0; length];
-    cursor.read_exact(&mut vec)?;
-    Ok(vec)
+    Ok(read_bytes(cursor, length)?)
 }
 
 pub fn parse_year(cursor: &mut Cursor<&[u8]>, _metadata: u16) -> Result<u16, Error> {
diff --git a/src/events/table_map_event.rs b/src/events/table_map_event.rs
index 2ec4b04..b1b6df9 100644
--- a/src/events/table_map_event.rs
+++ b/src/events/table_map_event.rs
@@ -1,9 +1,9 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_string};
+use crate::extensions::{read_bitmap_little_endian, read_bytes, read_len_enc_num, read_string};
 use crate::metadata::table_metadata::TableMetadata;
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{Cursor, Seek, SeekFrom};
 
 /// The event has table defition for row events.
 /// <a href="https://mariadb.com/kb/en/library/table_map_event/">See more</a>
@@ -50,8 +50,7 @@ impl TableMapEvent {
         cursor.seek(SeekFrom::Current(1))?;
 
         let columns_number = read_len_enc_num(cursor)?;
-        let mut column_types = vec![0u8; columns_number];
-        cursor.read_exact(&mut column_types)?;
+        let column_types = read_bytes(cursor, columns_number)?;
 
         let _metadata_length = read_len_enc_num(cursor)?;
         let column_metadata = TableMapEvent::parse_metadata(cursor, &column_types)?;
diff --git a/src/extensions.rs b/src/extensions.rs
index 6b3d272..5b36a2c 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -65,9 +65,24 @@ pub fn write_null_term_string(
 }
 
 pub fn read_string(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<String, Error> {
+    Ok(String::from_utf8(read_bytes(cursor, size)?)?)
+}
+
+/// Reads the bytes if there are so many left, however large the stated size is
+pub fn read_bytes(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<Vec<u8>, io::Error> {
+    check_available(cursor, size)?;
     let mut vec = vec![0; size];
     cursor.read_exact(&mut vec)?;
-    Ok(String::from_utf8(vec)?)
+    Ok(vec)
+}
+
+/// Sizes come from the network or a file: check them before memory is allocated
+pub fn check_available(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
+    let left = (cursor.get_ref().len() as u64).saturating_sub(cursor.position());
+    if size as u64 > left {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+    }
+    Ok(())
 }
 
 pub fn read_len_enc_str(cursor: &mut Cursor<&[u8]>) -> Result<String, Error> {
@@ -106,8 +121,9 @@ pub fn read_bitmap_little_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    check_available(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
@@ -126,8 +142,9 @@ pub fn read_bitmap_big_endian(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
+    let bytes_number = bits_number / 8 + (bits_number % 8 != 0) as usize;
+    check_available(cursor, bytes_number)?;
     let mut result = vec![false; bits_number];
-    let bytes_number = (bits_number + 7) / 8;
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
diff --git a/src/metadata/table_metadata.rs b/src/metadata/table_metadata.rs
index 7577e62..a2d145a 100644
--- a/src/metadata/table_metadata.rs
+++ b/src/metadata/table_metadata.rs
@@ -1,10 +1,10 @@
 use crate::constants::column_type::ColumnType;
 use crate::errors::Error;
-use crate::extensions::{read_len_enc_num, read_len_enc_str};
+use crate::extensions::{check_available, read_bytes, read_len_enc_num, read_len_enc_str};
 use crate::metadata::default_charset::DefaultCharset;
 use crate::metadata::metadata_type::MetadataType;
 use byteorder::ReadBytesExt;
-use std::io::{self, Cursor, Read};
+use std::io::{self, Cursor};
 
 /// Contains metadata for table columns.
 /// <a href="https://dev.mysql.com/doc/dev/mysql-server/latest/classbinary__log_1_1Table__map__event.html">See more</a>
@@ -66,8 +66,7 @@ impl TableMetadata {
             let metadata_type = MetadataType::from_code(cursor.read_u8()?)?;
             let metadata_length = read_len_enc_num(cursor)?;
 
-            let mut metadata = vec![0u8; metadata_length];
-            cursor.read_exact(&mut metadata)?;
+            let metadata = read_bytes(cursor, metadata_length)?;
 
             let mut buffer = Cursor::new(metadata.as_slice());
             match metadata_type {
@@ -183,8 +182,9 @@ fn read_bitmap_reverted(
     cursor: &mut Cursor<&[u8]>,
     bits_number: usize,
 ) -> Result<Vec<bool>, io::Error> {
-    let mut result = vec![false; bits_number];
     let bytes_number = (bits_number + 7) / 8;
+    check_available(cursor, bytes_number)?;
+    let mut result = vec![false; bits_number];
     for i in 0..bytes_number {
         let value = cursor.read_u8()?;
         for y in 0..8 {
-- 
2.43.0


From d9c4746b8621cd9c6534b225f4a2b66642434066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 24/34] fix: report a row event that does not fit its table as
 an error instead of panicking or looping

---
 src/events/row_events/row_parser.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 9182e3c..6064bf2 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -36,6 +36,7 @@ pub fn parse_row_data_list(
     };
 
     let cells_included = get_bits_number(columns_present);
+    check_has_cells(cursor, cells_included)?;
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
         rows.push(parse_row(cursor, table, columns_present, cells_included)?);
@@ -57,6 +58,10 @@ pub fn parse_update_row_data_list(
 
     let cells_included_before_update = get_bits_number(columns_before_update);
     let cells_included_after_update = get_bits_number(columns_after_update);
+    check_has_cells(
+        cursor,
+        cells_included_before_update + cells_included_after_update,
+    )?;
     let mut rows = Vec::new();
     while cursor.position() < cursor.get_ref().len() as u64 {
         let row_before_update = parse_row(
@@ -100,6 +105,11 @@ pub fn parse_row(
     columns_present: &Vec<bool>,
     cells_included: usize,
 ) -> Result<RowData, Error> {
+    if columns_present.len() != table_map.column_types.len() {
+        return Err(Error::String(
+            "The row event doesn't have the columns of its table".to_string(),
+        ));
+    }
     let mut row = Vec::with_capacity(table_map.column_types.len());
     let null_bitmap = read_bitmap_little_endian(cursor, cells_included)?;
 
@@ -183,6 +193,16 @@ fn parse_cell(
     Ok(value)
 }
 
+/// Rows without cells take no bytes, so that any bytes left would never be consumed.
+fn check_has_cells(cursor: &Cursor<&[u8]>, cells_included: usize) -> Result<(), Error> {
+    if cells_included == 0 && cursor.position() < cursor.get_ref().len() as u64 {
+        return Err(Error::String(
+            "The row event has data but no columns".to_string(),
+        ));
+    }
+    Ok(())
+}
+
 /// Gets number of bits set in a bitmap.
 fn get_bits_number(bitmap: &Vec<bool>) -> usize {
     bitmap.iter().filter(|&x| *x == true).count()
-- 
2.43.0


From e0e0c27e9e2e4db5a3cb9e6ffc334ac3997f4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 25/34] fix: report values of impossible column declarations as
 an error instead of panicking

---
 src/events/row_events/col_parser.rs | 11 +++++++++--
 src/events/row_events/decimal.rs    |  6 ++++++
 src/events/row_events/row_parser.rs |  6 +++---
 src/extensions.rs                   | 11 ++++++++++-
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/events/row_events/col_parser.rs b/src/events/row_events/col_parser.rs
index 399aa1b..ee568f7 100644
--- a/src/events/row_events/col_parser.rs
+++ b/src/events/row_events/col_parser.rs
@@ -1,6 +1,6 @@
 use crate::errors::Error;
 use crate::events::row_events::mysql_value::{Date, DateTime, Time};
-use crate::extensions::{read_bitmap_big_endian, read_bytes, read_string};
+use crate::extensions::{read_bitmap_big_endian, read_bytes, read_number, read_string};
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
 use std::io::Cursor;
 
@@ -21,7 +21,7 @@ pub fn parse_bit(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<bool>,
 }
 
 pub fn parse_blob(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<Vec<u8>, Error> {
-    let length = cursor.read_uint::<LittleEndian>(metadata as usize)? as usize;
+    let length = read_number::<LittleEndian>(cursor, metadata as usize)? as usize;
     Ok(read_bytes(cursor, length)?)
 }
 
@@ -163,6 +163,13 @@ fn parse_fractional_part(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<u6
         return Ok(0);
     }
 
+    if length > 3 {
+        return Err(Error::String(format!(
+            "Unexpected precision of fractional seconds: {}",
+            metadata
+        )));
+    }
+
     let fraction = cursor.read_uint::<BigEndian>(length as usize)?;
     Ok(fraction * u64::pow(100, 3 - length as u32))
 }
diff --git a/src/events/row_events/decimal.rs b/src/events/row_events/decimal.rs
index 34c94f6..cdad175 100644
--- a/src/events/row_events/decimal.rs
+++ b/src/events/row_events/decimal.rs
@@ -10,6 +10,12 @@ const COMPRESSED_BYTES: [u8; 10] = [0, 1, 1, 2, 2, 3, 3, 4, 4, 4];
 pub fn parse_decimal(cursor: &mut Cursor<&[u8]>, metadata: u16) -> Result<String, Error> {
     let precision = metadata & 0xFF;
     let scale = (metadata >> 8) as u8;
+    if precision == 0 || precision < scale as u16 {
+        return Err(Error::String(format!(
+            "Unexpected decimal declaration: ({}, {})",
+            precision, scale
+        )));
+    }
     let integral = (precision - scale as u16) as u8;
 
     let uncompressed_integral = integral / DIGITS_PER_INT;
diff --git a/src/events/row_events/row_parser.rs b/src/events/row_events/row_parser.rs
index 6064bf2..5136b43 100644
--- a/src/events/row_events/row_parser.rs
+++ b/src/events/row_events/row_parser.rs
@@ -7,7 +7,7 @@ use crate::events::row_events::col_parser::{
 use crate::events::row_events::mysql_value::MySqlValue;
 use crate::events::row_events::row_data::{RowData, UpdateRowData};
 use crate::events::table_map_event::TableMapEvent;
-use crate::extensions::{read_bitmap_little_endian, read_len_enc_num};
+use crate::extensions::{read_bitmap_little_endian, read_len_enc_num, read_number};
 use byteorder::{LittleEndian, ReadBytesExt};
 use std::collections::HashMap;
 use std::io::{Cursor, Seek, SeekFrom};
@@ -159,10 +159,10 @@ fn parse_cell(
         /* BIT, ENUM, SET types */
         ColumnType::Bit => MySqlValue::Bit(parse_bit(cursor, metadata)?),
         ColumnType::Enum => {
-            MySqlValue::Enum(cursor.read_uint::<LittleEndian>(metadata as usize)? as u32)
+            MySqlValue::Enum(read_number::<LittleEndian>(cursor, metadata as usize)? as u32)
         }
         ColumnType::Set => {
-            MySqlValue::Set(cursor.read_uint::<LittleEndian>(metadata as usize)? as u64)
+            MySqlValue::Set(read_number::<LittleEndian>(cursor, metadata as usize)? as u64)
         }
         /* Blob types. MariaDB always creates BLOB for first three */
         ColumnType::TinyBlob => MySqlValue::Blob(parse_blob(cursor, metadata)?),
diff --git a/src/extensions.rs b/src/extensions.rs
index 5b36a2c..42c1b71 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -3,7 +3,7 @@ use crate::constants::NULL_TERMINATOR;
 use crate::errors::Error;
 use crate::responses::error_packet::ErrorPacket;
 use crate::responses::response_type::ResponseType;
-use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
+use byteorder::{ByteOrder, LittleEndian, ReadBytesExt, WriteBytesExt};
 use sha1::Sha1;
 use sha2::{Digest, Sha256};
 use std::io::{self, BufRead, Cursor, Read, Write};
@@ -76,6 +76,15 @@ pub fn read_bytes(cursor: &mut Cursor<&[u8]>, size: usize) -> Result<Vec<u8>, io
     Ok(vec)
 }
 
+/// Reads an integer of the width a column is declared with
+pub fn read_number<T: ByteOrder>(cursor: &mut Cursor<&[u8]>, width: usize) -> Result<u64, Error> {
+    if width < 1 || width > 8 {
+        let message = format!("Unexpected width of an integer: {}", width);
+        return Err(Error::String(message));
+    }
+    Ok(cursor.read_uint::<T>(width)?)
+}
+
 /// Sizes come from the network or a file: check them before memory is allocated
 pub fn check_available(cursor: &Cursor<&[u8]>, size: usize) -> Result<(), io::Error> {
     let left = (cursor.get_ref().len() as u64).saturating_sub(cursor.position());
-- 
2.43.0


From 9d8fc67e037d5bc3e019879d9ed7f19de9287980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 26/34] fix: do not overflow on GTIDs at the ends of the range

---
 src/providers/mysql/events/prev_gtids_event.rs | 6 +++++-
 src/providers/mysql/gtid/uuid_set.rs           | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/providers/mysql/events/prev_gtids_event.rs b/src/providers/mysql/events/prev_gtids_event.rs
index d579d53..a378c8d 100644
--- a/src/providers/mysql/events/prev_gtids_event.rs
+++ b/src/providers/mysql/events/prev_gtids_event.rs
@@ -28,7 +28,11 @@ impl PreviousGtidsEvent {
             for _y in 0..interval_number {
                 let start = cursor.read_u64::<LittleEndian>()?;
                 let end = cursor.read_u64::<LittleEndian>()?;
-                uuid_set.intervals.push(Interval::new(start, end - 1));
+                // The end is exclusive
+                let last = end.checked_sub(1).ok_or_else(|| {
+                    Error::String("Unexpected end of an interval: 0".to_string())
+                })?;
+                uuid_set.intervals.push(Interval::new(start, last));
             }
             gtid_set
                 .uuid_sets
diff --git a/src/providers/mysql/gtid/uuid_set.rs b/src/providers/mysql/gtid/uuid_set.rs
index 72ea998..c6fa01b 100644
--- a/src/providers/mysql/gtid/uuid_set.rs
+++ b/src/providers/mysql/gtid/uuid_set.rs
@@ -38,10 +38,10 @@ impl UuidSet {
         let mut added = false;
         if index < self.intervals.len() {
             let interval = &mut self.intervals[index];
-            if interval.start == gtid.transaction_id + 1 {
+            if gtid.transaction_id.checked_add(1) == Some(interval.start) {
                 interval.start = gtid.transaction_id;
                 added = true;
-            } else if interval.end + 1 == gtid.transaction_id {
+            } else if interval.end.checked_add(1) == Some(gtid.transaction_id) {
                 interval.end = gtid.transaction_id;
                 added = true;
             } else if interval.start <= gtid.transaction_id && gtid.transaction_id <= interval.end {
-- 
2.43.0


From 8cbfb9080a748e02ba3114b172055ad5de1fb608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 27/34] fix: do not lose an error whose message is not valid
 UTF-8

---
 src/responses/error_packet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/responses/error_packet.rs b/src/responses/error_packet.rs
index a635fbe..d2e76e4 100644
--- a/src/responses/error_packet.rs
+++ b/src/responses/error_packet.rs
@@ -16,8 +16,10 @@ impl ErrorPacket {
 
         let error_code = cursor.read_u16::<LittleEndian>()?;
 
-        let mut error_message = String::new();
-        cursor.read_to_string(&mut error_message)?;
+        // Servers cut long messages, possibly in the middle of a character
+        let mut message = Vec::new();
+        cursor.read_to_end(&mut message)?;
+        let mut error_message = String::from_utf8_lossy(&message).to_string();
 
         let mut sql_state = None;
         if error_message.starts_with('#') {
-- 
2.43.0


From 93c10b2ec44f0c54673c76dc748144dedb55ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 28/34] fix: do not wait for ever if a query fails while its
 result set begins

---
 src/configure.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configure.rs b/src/configure.rs
index aebaeec..97ba1ac 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -87,6 +87,7 @@ impl BinlogClient {
         loop {
             // Skip through metadata
             let (packet, _) = channel.read_packet()?;
+            check_error_packet(&packet, "Reading result set error.")?;
             if packet[0] == ResponseType::END_OF_FILE {
                 break;
             }
-- 
2.43.0


From 6f1a563b80eb4e405585a061a402e8a23271a918 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 29/34] fix: update the GTID position at the end of compressed
 transactions and statements

A server that compresses its log sends a whole transaction as one event (MySQL)
or a statement that commits itself as a compressed query (MariaDB).
---
 src/binlog_client.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index d9ffd9f..0d6b894 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -16,6 +16,10 @@ const MARIADB_FL_STANDALONE: u8 = 1;
 
 /// Ends the event group of an XA transaction.
 const XA_PREPARE_EVENT: u8 = 38;
+/// Holds a whole transaction of a MySQL server that compresses its log.
+const TRANSACTION_PAYLOAD_EVENT: u8 = 40;
+/// A statement in the log of a MariaDB server that compresses it.
+const QUERY_COMPRESSED_EVENT: u8 = 165;
 
 /// The row event is the last one of its statement.
 const ROWS_STMT_END: u16 = 1;
@@ -109,9 +113,12 @@ impl BinlogClient {
                     self.commit_gtid();
                 }
             }
-            BinlogEvent::UnknownEvent if header.event_type == XA_PREPARE_EVENT => {
-                self.commit_gtid();
-            }
+            BinlogEvent::UnknownEvent => match header.event_type {
+                XA_PREPARE_EVENT | TRANSACTION_PAYLOAD_EVENT => self.commit_gtid(),
+                // Auto-commit query like DDL
+                QUERY_COMPRESSED_EVENT if !self.transaction => self.commit_gtid(),
+                _ => {}
+            },
             _ => {}
         }
     }
-- 
2.43.0


From 70dc927b14c942bb2710059f15f29fa2cf986992 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 30/34] fix: do not move the position to row events that are
 not decoded

Decoded row events of the same statement can follow, which need the table
definitions before them.
---
 src/binlog_client.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/binlog_client.rs b/src/binlog_client.rs
index 0d6b894..460f778 100644
--- a/src/binlog_client.rs
+++ b/src/binlog_client.rs
@@ -24,6 +24,11 @@ const QUERY_COMPRESSED_EVENT: u8 = 165;
 /// The row event is the last one of its statement.
 const ROWS_STMT_END: u16 = 1;
 
+/// Row events that are not decoded.
+const PARTIAL_UPDATE_ROWS_EVENT: u8 = 39;
+const FIRST_ROWS_COMPRESSED_EVENT: u8 = 166;
+const LAST_ROWS_COMPRESSED_EVENT: u8 = 171;
+
 /// MySql replication client streaming binlog events in real-time.
 pub struct BinlogClient {
     pub options: ReplicaOptions,
@@ -132,6 +137,8 @@ impl BinlogClient {
             BinlogEvent::WriteRowsEvent(x) if x.flags & ROWS_STMT_END == 0 => return,
             BinlogEvent::UpdateRowsEvent(x) if x.flags & ROWS_STMT_END == 0 => return,
             BinlogEvent::DeleteRowsEvent(x) if x.flags & ROWS_STMT_END == 0 => return,
+            // Others of the same statement may follow, their flags are unknown.
+            BinlogEvent::UnknownEvent if is_undecoded_rows_event(header.event_type) => return,
             BinlogEvent::RotateEvent(x) => {
                 self.options.binlog.filename = x.binlog_filename.clone();
                 self.options.binlog.position = x.binlog_position as u32;
@@ -159,3 +166,11 @@ impl BinlogClient {
         }
     }
 }
+
+fn is_undecoded_rows_event(event_type: u8) -> bool {
+    match event_type {
+        PARTIAL_UPDATE_ROWS_EVENT => true,
+        FIRST_ROWS_COMPRESSED_EVENT..=LAST_ROWS_COMPRESSED_EVENT => true,
+        _ => false,
+    }
+}
-- 
2.43.0


From 5978a7ffcf7be4a302ea542af1672483e9f2bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:26 +0000
Subject: [PATCH 31/34] fix: request the heartbeat period with the configured
 precision

---
 src/configure.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/configure.rs b/src/configure.rs
index 97ba1ac..9995298 100644
--- a/src/configure.rs
+++ b/src/configure.rs
@@ -43,8 +43,7 @@ impl BinlogClient {
     }
 
     pub fn set_master_heartbeat(&mut self, channel: &mut PacketChannel) -> Result<(), Error> {
-        let milliseconds = self.options.heartbeat_interval.as_millis();
-        let nanoseconds = milliseconds * 1000 * 1000;
+        let nanoseconds = self.options.heartbeat_interval.as_nanos();
         let query = format!("set @master_heartbeat_period={}", nanoseconds);
         let command = QueryCommand::new(query.to_string());
         channel.write_packet(&command.serialize()?, 0)?;
-- 
2.43.0


From 5a1305adeccc8e7739a0e5a18cfc99a3e9b23695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:57 +0000
Subject: [PATCH 32/34] fix: do not resume reading inside a packet after a
 timeout

---
 src/packet_channel.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/packet_channel.rs b/src/packet_channel.rs
index 8cfa0cb..cf519b3 100644
--- a/src/packet_channel.rs
+++ b/src/packet_channel.rs
@@ -7,6 +7,8 @@ use crate::replica_options::ReplicaOptions;
 
 pub struct PacketChannel {
     stream: TcpStream,
+    /// Whether reading stopped inside a packet, e.g. because of a timeout
+    torn: bool,
 }
 
 impl PacketChannel {
@@ -15,13 +17,24 @@ impl PacketChannel {
         let stream = TcpStream::connect(address)?;
         let read_timeout = options.heartbeat_interval + TIMEOUT_LATENCY_DELTA;
         stream.set_read_timeout(Some(read_timeout))?;
-        Ok(Self { stream })
+        Ok(Self {
+            stream,
+            torn: false,
+        })
     }
 
     pub fn read_packet(&mut self) -> Result<(Vec<u8>, u8), io::Error> {
         let mut header_buffer = [0; PACKET_HEADER_SIZE];
 
-        self.stream.read_exact(&mut header_buffer)?;
+        if self.torn {
+            return Err(io::Error::new(
+                io::ErrorKind::NotConnected,
+                "The connection was lost inside a packet",
+            ));
+        }
+        self.stream.read_exact(&mut header_buffer[..1])?;
+        self.torn = true;
+        self.stream.read_exact(&mut header_buffer[1..])?;
         let mut packet_size = (&header_buffer[0..3]).read_u24::<LittleEndian>()? as usize;
         let mut seq_num = header_buffer[3];
 
@@ -38,6 +51,7 @@ impl PacketChannel {
             packet.resize(length + packet_size, 0);
             self.stream.read_exact(&mut packet[length..])?;
         }
+        self.torn = false;
 
         if packet.is_empty() {
             return Err(io::Error::new(
-- 
2.43.0


From 55f30d14a7d48ff2eedb34a0f1cedd75fe296bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 33/34] fix: packet numbers wrap around after 255

---
 src/connect.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/connect.rs b/src/connect.rs
index 9132308..e7dee8d 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -23,7 +23,12 @@ impl BinlogClient {
         let handshake = HandshakePacket::parse(&packet)?;
 
         let auth_plugin = self.get_auth_plugin(&handshake.auth_plugin_name)?;
-        self.authenticate(&mut channel, &handshake, auth_plugin, seq_num + 1)?;
+        self.authenticate(
+            &mut channel,
+            &handshake,
+            auth_plugin,
+            seq_num.wrapping_add(1),
+        )?;
         Ok((channel, DatabaseProvider::from(&handshake.server_version)))
     }
 
@@ -45,7 +50,7 @@ impl BinlogClient {
             if ssl_available {
                 let ssl_command = SslRequestCommand::new(UTF8_MB4_GENERAL_CI);
                 channel.write_packet(&ssl_command.serialize()?, seq_num)?;
-                seq_num += 1;
+                seq_num = seq_num.wrapping_add(1);
                 channel.upgrade_to_ssl();
                 use_ssl = true;
             }
@@ -61,7 +66,12 @@ impl BinlogClient {
             ResponseType::OK => return Ok(()),
             ResponseType::AUTH_PLUGIN_SWITCH => {
                 let switch_packet = AuthPluginSwitchPacket::parse(&packet[1..])?;
-                self.handle_auth_plugin_switch(channel, switch_packet, seq_num + 1, use_ssl)?;
+                self.handle_auth_plugin_switch(
+                    channel,
+                    switch_packet,
+                    seq_num.wrapping_add(1),
+                    use_ssl,
+                )?;
                 Ok(())
             }
             _ => {
@@ -69,7 +79,7 @@ impl BinlogClient {
                     channel,
                     &packet,
                     &handshake.scramble,
-                    seq_num + 1,
+                    seq_num.wrapping_add(1),
                     use_ssl,
                 )?;
                 Ok(())
@@ -100,7 +110,7 @@ impl BinlogClient {
                 channel,
                 &packet,
                 &switch_packet.auth_plugin_data,
-                seq_num + 1,
+                seq_num.wrapping_add(1),
                 use_ssl,
             )?;
         }
@@ -159,7 +169,7 @@ impl BinlogClient {
             Padding::PKCS1_OAEP,
         )?;
 
-        channel.write_packet(&encrypted_body, seq_num + 1)?;
+        channel.write_packet(&encrypted_body, seq_num.wrapping_add(1))?;
         let (packet, _seq_num) = channel.read_packet()?;
         check_error_packet(&packet, "Authentication error.")?;
         Ok(())
-- 
2.43.0


From d7b770c03206e1fd90f6abad43ae335941b5cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 34/34] fix: refuse GTID intervals that end before they start

---
 src/providers/mysql/gtid/gtid_set.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/providers/mysql/gtid/gtid_set.rs b/src/providers/mysql/gtid/gtid_set.rs
index 6d74850..5c0fbcd 100644
--- a/src/providers/mysql/gtid/gtid_set.rs
+++ b/src/providers/mysql/gtid/gtid_set.rs
@@ -51,6 +51,9 @@ impl GtidSet {
                     2 => Interval::new(range[0].parse()?, range[1].parse()?),
                     _ => return Err(Error::String(format!("Invalid interval format {}", token))),
                 };
+                if interval.end < interval.start {
+                    return Err(Error::String(format!("Invalid interval format {}", token)));
+                }
                 intervals.push(interval);
             }
             // The same server may be listed more than once
-- 
2.43.0

