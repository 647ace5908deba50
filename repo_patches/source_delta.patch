From b3672ff4917622d2c0d2e82bd323d884577cda49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 01/29] fix: do not panic on a source that has no rows in the
 time range

---
 src/driver/driver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index ced20b7..03b37dd 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -35,6 +35,17 @@ impl Driver {
     fn drive(&mut self) -> CliResult<()> {
         let mut row_buffers = self.get_row_buffers()?;
 
+        // sources that have no rows in range have nothing to write, so they are done already
+        let mut i = 0;
+        while i < row_buffers.len() {
+            if row_buffers[i].row().is_some() {
+                i += 1;
+            } else {
+                let chain_id = row_buffers.remove(i).chain_id();
+                self.flush(chain_id, 0)?;
+            }
+        }
+
         // sort and output
         // all the sources are processed at the same time, but a row with min timestamp is output first
         let mut buffer_len = row_buffers.len();
-- 
2.43.0


From e534905c46a9d518cb372803e97ad44f1074eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 02/29] fix: send rows of each source to the header chain with
 the same index

---
 src/driver/driver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 03b37dd..8e4fd88 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -73,7 +73,8 @@ impl Driver {
 
     fn get_row_buffers(&mut self) -> CliResult<Vec<SourceRowBuffer>> {
         let mut row_buffers: Vec<SourceRowBuffer> = Vec::with_capacity(self.sources.len());
-        for i in 0..self.sources.len() {
+        // sources are taken from the end, so chain ids are counted down to match
+        for i in (0..self.sources.len()).rev() {
             let source = self.sources.pop().unwrap();
             row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
         }
-- 
2.43.0


From 705497b842f7463994b053bbe13ab2355984a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 03/29] fix: refuse graphs whose chain references do not add up

---
 src/chopper/header_graph.rs | 59 +++++++++++++++++++++++++++----------
 src/driver/driver.rs        |  5 ++++
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 57e7964..eaab48c 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -20,6 +20,8 @@ pub struct HeaderChain {
 
 pub struct HeaderGraph {
     header_chains: Vec<HeaderChain>,
+    /// whether the chain at the same index was already turned into a data chain
+    processed: Vec<bool>,
 }
 
 impl HeaderChain {
@@ -38,7 +40,11 @@ impl HeaderChain {
 
 impl HeaderGraph {
     pub fn new(header_chains: Vec<HeaderChain>) -> Self {
-        HeaderGraph { header_chains }
+        let processed = vec![false; header_chains.len()];
+        HeaderGraph {
+            header_chains,
+            processed,
+        }
     }
 
     pub fn len(&self) -> usize {
@@ -56,6 +62,15 @@ impl HeaderGraph {
         for i in 0..header.len() {
             self = self.process_header_re(&mut data_graph, i, header.get_mut(i).unwrap())?;
         }
+
+        // a merge that is still waiting for headers would never pass on any of its rows
+        for chain in &self.header_chains {
+            if let Some(HeaderNode::MergeHeaderSink(..)) = chain.nodes.get(0) {
+                return Err(Error::from(
+                    "HeaderGraph -- merge has fewer inputs than expected",
+                ));
+            }
+        }
         Ok(data_graph)
     }
 
@@ -65,9 +80,9 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let chain: &mut HeaderChain = self.header_chains.get_mut(chain_id).unwrap();
+        let chain: &mut HeaderChain = self.get_unprocessed_chain(chain_id)?;
         // check the first node of the chain.
-        if let HeaderNode::MergeHeaderSink(..) = chain.get_mut_nodes().get_mut(0).unwrap() {
+        if let Some(HeaderNode::MergeHeaderSink(..)) = chain.get_mut_nodes().get_mut(0) {
             // if MergeHeaderSink, check/process the header without removing the chain
             // pass to match_remove_chain only when all the Merge headers are processed
             self.check_merge_header(data_graph, chain_id, header)
@@ -77,7 +92,22 @@ impl HeaderGraph {
         }
     }
 
+    fn get_unprocessed_chain(&mut self, chain_id: ChainId) -> CliResult<&mut HeaderChain> {
+        match self.processed.get(chain_id) {
+            Some(false) => Ok(&mut self.header_chains[chain_id]),
+            Some(true) => Err(Error::from(format!(
+                "HeaderGraph -- ChainId[{}] has more inputs than expected",
+                chain_id
+            ))),
+            None => Err(Error::from(format!(
+                "HeaderGraph -- ChainId[{}] index out of bounds",
+                chain_id
+            ))),
+        }
+    }
+
     fn swap_remove(&mut self, chain_id: usize) -> HeaderChain {
+        self.processed[chain_id] = true;
         let empty_chain = HeaderChain::new(Vec::new());
         self.header_chains.push(empty_chain);
         self.header_chains.swap_remove(chain_id)
@@ -98,7 +128,12 @@ impl HeaderGraph {
                     data_node = DataNode::DataSink(hs.process_header(header)?);
                     data_graph.add_node(data_node, chain_id).unwrap();
                 }
-                HeaderNode::MergeHeaderSink(mhs, _) => {
+                HeaderNode::MergeHeaderSink(mhs, header_count_tracker) => {
+                    if header_count_tracker.unprocessed_count > 0 {
+                        return Err(Error::from(
+                            "HeaderGraph -- MergeHeaderSink must be the first node of its chain",
+                        ));
+                    }
                     data_node = DataNode::DataSink(mhs.get_data_sink()?);
                     data_graph.add_node(data_node, chain_id)?;
                 }
@@ -109,7 +144,7 @@ impl HeaderGraph {
                         ));
                     }
                     for i in shs.chain_ids() {
-                        self = self.match_remove_chain(data_graph, *i, &mut header.clone())?;
+                        self = self.process_header_re(data_graph, *i, &mut header.clone())?;
                         header_count_tracker.unprocessed_count -= 1;
                     }
                     data_node = DataNode::Split(shs.chain_ids().clone());
@@ -131,17 +166,9 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let node: &mut HeaderNode = match self.get_mut_chain(chain_id) {
-            Some(c) => c.get_mut_nodes().get_mut(0).unwrap(),
-            None => {
-                return Err(Error::from(format!(
-                    "HeaderGraph -- ChainId[{}] index out of bounds",
-                    chain_id
-                )))
-            }
-        };
-        match node {
-            HeaderNode::MergeHeaderSink(mhs, header_count_tracker) => {
+        let chain = self.get_unprocessed_chain(chain_id)?;
+        match chain.get_mut_nodes().get_mut(0) {
+            Some(HeaderNode::MergeHeaderSink(mhs, header_count_tracker)) => {
                 if header_count_tracker.unprocessed_count <= 0 {
                     return Err(Error::from(
                         "HeaderGraph -- unprocessed header count must be at least 1",
diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 8e4fd88..be0aa0d 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -24,6 +24,11 @@ impl Driver {
                 each source should have at least one header chain.",
             ));
         }
+        if sources.len() != headers.len() {
+            return Err(Error::from(
+                "Driver -- each source should have exactly one header.",
+            ));
+        }
         let data_graph = header_graph.process_header(headers)?;
         Ok(Driver {
             sources,
-- 
2.43.0


From eae5b7e27acee91ba6fb44ee29c8ee2aed431f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 04/29] fix: size the null bitset of dc rows by the number of
 columns

---
 src/util/dc_util.rs  | 2 +-
 src/write/dc_sink.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index 96258c3..ccd0a5c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -22,7 +22,7 @@ pub enum DisplayHint {
 }
 
 pub fn get_bitset_bytes(field_count: usize) -> usize {
-    1 + ((field_count - 1) / 8)
+    (field_count + 7) / 8
 }
 
 // map for field types
diff --git a/src/write/dc_sink.rs b/src/write/dc_sink.rs
index 04fdc09..9023fa6 100644
--- a/src/write/dc_sink.rs
+++ b/src/write/dc_sink.rs
@@ -128,7 +128,7 @@ impl DCSink {
 impl HeaderSink for DCSink {
     fn process_header(mut self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
         Self::write_header(&mut self, header)?;
-        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len() - 1);
+        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len());
         self.bitset_bytes = bitset_bytes;
         Ok(self.boxed())
     }
-- 
2.43.0


From f4ef6def06edf16abf23bccf8e39cd99b3924135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 05/29] fix: report dc input that is cut off or fails inside a
 timestamp

---
 src/source/dc_source.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 5df54da..be2d964 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -95,10 +95,11 @@ impl<R: io::Read> DCSource<R> {
     }
 
     fn next_row(&mut self) -> CliResult<Option<Row>> {
-        match self.reader.read_u64::<BigEndian>() {
-            Ok(i) => self.current_row.timestamp = i,
-            Err(_e) => return Ok(None),
-        };
+        // only the end of input between rows is a normal end
+        if self.at_end()? {
+            return Ok(None);
+        }
+        self.current_row.timestamp = self.reader.read_u64::<BigEndian>()?;
 
         // bitset of null values
         let bitset_bytes = &mut self.bitset_bytes;
@@ -159,6 +160,16 @@ impl<R: io::Read> DCSource<R> {
         Ok(Some(self.current_row.clone()))
     }
 
+    fn at_end(&mut self) -> CliResult<bool> {
+        loop {
+            match self.reader.fill_buf() {
+                Ok(buf) => return Ok(buf.is_empty()),
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(Error::from(e)),
+            }
+        }
+    }
+
     fn read_string(reader: &mut io::BufReader<R>) -> CliResult<String> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
-- 
2.43.0


From a8407756e32a43be7a5ba918ca74f5200f3307d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 06/29] fix: report malformed dc input instead of crashing on
 it

---
 src/source/dc_source.rs | 36 ++++++++++++++++++------------------
 src/util/dc_util.rs     | 18 ++++++++++++------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index be2d964..fe96e55 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,6 +1,5 @@
 use std::collections::HashMap;
 use std::io::{self, BufRead, Read};
-use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
 
@@ -51,13 +50,12 @@ impl<R: io::Read> DCSource<R> {
 
         let map_field_string = &FIELD_STRING_MAP_NAME;
         let field_count = reader.read_u32::<BigEndian>()? as usize;
-        let bitset_byte_count = dc_util::get_bitset_bytes(field_count);
-        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
 
         // field descriptor (header)
-        let mut field_names: Vec<String> = Vec::with_capacity(field_count);
-        let mut field_types: Vec<FieldType> = Vec::with_capacity(field_count);
-        let mut field_values: Vec<FieldValue> = Vec::with_capacity(field_count);
+        // field count is not trusted to size these upfront
+        let mut field_names: Vec<String> = Vec::new();
+        let mut field_types: Vec<FieldType> = Vec::new();
+        let mut field_values: Vec<FieldValue> = Vec::new();
         for i in 0..field_count {
             let field_descriptor = dc_util::FieldDescriptor::new(&mut reader)?;
             let mut name = field_descriptor.get_name().to_string();
@@ -66,14 +64,19 @@ impl<R: io::Read> DCSource<R> {
                 name = format!("col_{}", i);
             }
             field_names.push(name);
-            field_types.push(
-                map_field_string
-                    .get(field_descriptor.get_type_string())
-                    .unwrap()
-                    .clone(),
-            );
+            match map_field_string.get(field_descriptor.get_type_string()) {
+                Some(field_type) => field_types.push(field_type.clone()),
+                None => {
+                    return Err(Error::from(format!(
+                        "DCReader -- unknown field type - {}",
+                        field_descriptor.get_type_string()
+                    )))
+                }
+            }
             field_values.push(FieldValue::None);
         }
+        let bitset_byte_count = dc_util::get_bitset_bytes(field_count);
+        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
 
         // Header
         let header: Header = Header::new(field_names, field_types);
@@ -174,13 +177,10 @@ impl<R: io::Read> DCSource<R> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
             -1 => reader.read_u32::<BigEndian>()?,
-            _ => data_size_short as u32,
+            x if x >= 0 => x as u32,
+            x => return Err(Error::from(format!("DCReader -- wrong string size - {}", x))),
         };
-        let mut string: Vec<u8> = vec![0; data_size as usize];
-        let string = string.as_mut_slice();
-        reader.read_exact(string)?;
-
-        Ok(str::from_utf8_mut(string).unwrap().to_string())
+        dc_util::read_string_bytes(reader, data_size)
     }
 }
 
diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index ccd0a5c..010373c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, BufWriter, Write};
+use std::io::{self, BufWriter, Read, Write};
 use std::string::String;
 
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
@@ -105,12 +105,18 @@ impl FieldDescriptor {
 
     fn get_sized_string<R: io::BufRead>(mut rdr: R) -> CliResult<String> {
         let size = rdr.read_u32::<BigEndian>()?;
-        let mut string_bytes: Vec<u8> = Vec::with_capacity(size as usize);
-        for _i in 0..size as usize {
-            string_bytes.push(rdr.read_u8()?);
-        }
-        Ok(String::from_utf8(string_bytes).unwrap().to_string())
+        read_string_bytes(&mut rdr, size)
+    }
+}
+
+/// reads a string of the given number of bytes; the size is not trusted to allocate upfront
+pub fn read_string_bytes<R: io::Read>(reader: &mut R, size: u32) -> CliResult<String> {
+    let mut bytes: Vec<u8> = Vec::new();
+    reader.take(size as u64).read_to_end(&mut bytes)?;
+    if bytes.len() < size as usize {
+        return Err(Error::from(io::Error::from(io::ErrorKind::UnexpectedEof)));
     }
+    String::from_utf8(bytes).map_err(|_| Error::from("dc string is not valid UTF-8"))
 }
 
 pub fn write_sized_string<W: io::Write>(writer: &mut BufWriter<W>, string: &str) -> CliResult<()> {
-- 
2.43.0


From 06277669a0d8c5bec5eb1400f11ecd64ac2e7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 07/29] fix: do not count parts of non-ASCII characters as
 delimiters

---
 src/util/csv_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index 581611f..c4f9af1 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -35,8 +35,8 @@ pub fn guess_delimiter(row: &str, possible_delimiters: &[u8]) -> u8 {
         counts.insert(*d, 0);
     }
 
-    for c in row.chars() {
-        counts.entry(c as u8).and_modify(|count| *count += 1);
+    for b in row.bytes() {
+        counts.entry(b).and_modify(|count| *count += 1);
     }
 
     let mut sorted = possible_delimiters.to_vec();
-- 
2.43.0


From e71cc4e8d827849f5a8606b798495f7ae5db14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 08/29] fix: do not exit when a missing value is compared with
 a value

---
 src/chopper/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chopper/types.rs b/src/chopper/types.rs
index 2674a13..57fea6a 100644
--- a/src/chopper/types.rs
+++ b/src/chopper/types.rs
@@ -123,6 +123,8 @@ impl PartialOrd for FieldValue {
             (FieldValue::Short(x), FieldValue::Short(y)) => Some(x.cmp(y)),
             (FieldValue::String(x), FieldValue::String(y)) => Some(x.cmp(y)),
             (FieldValue::None, FieldValue::None) => Some(Ordering::Equal),
+            // a missing value is neither less nor greater than a value
+            (FieldValue::None, _) | (_, FieldValue::None) => None,
             _ => Error::from(format!(
                 "FieldValue -- cannot compare different field types - {} {}",
                 self, other
-- 
2.43.0


From 46d852ae0115d2d72525bc59c8e7996aa5818612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 09/29] fix: separate csv header names with the configured
 delimiter

---
 src/write/csv_sink.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 39253ee..a5b8196 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -39,14 +39,16 @@ impl CSVSink {
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{},", self.csv_output_config.time_col_name())?;
+            write!(writer, "{}", self.csv_output_config.time_col_name())?;
+            first = false;
         }
+        let delimiter = self.csv_output_config.delimiter();
         for name in field_name {
             if first {
                 write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, ",{}", name)?;
+                write!(writer, "{}{}", delimiter, name)?;
             }
         }
         write!(writer, "\n")?;
-- 
2.43.0


From 6b19788c850132e27182f72dea74c1f8c34c9f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 10/29] fix: detect dc contents before falling back to csv

---
 src/input/input_factory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/input_factory.rs b/src/input/input_factory.rs
index 2a388ef..a3686e5 100644
--- a/src/input/input_factory.rs
+++ b/src/input/input_factory.rs
@@ -153,10 +153,11 @@ pub fn create_default_source_factories(
     csv_input_config: Option<CSVInputConfig>,
 ) -> Vec<Box<dyn SourceFactory>> {
     let mut source_factories: Vec<Box<dyn SourceFactory>> = Vec::new();
+    source_factories.push(Box::new(DCFactory));
+    // csv accepts anything that looks like text, so it has to be last
     if let Some(csv_input_config) = csv_input_config {
         source_factories.push(Box::new(CSVFactory::new(csv_input_config)));
     }
-    source_factories.push(Box::new(DCFactory));
     source_factories
 }
 
-- 
2.43.0


From d1c22a6713b37bae996e710b5a0da6c6afc0e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 11/29] fix: open a path only with the first transport that can

---
 src/transport/seekable/seekable_factory.rs   | 6 +++---
 src/transport/streaming/previewer_factory.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/transport/seekable/seekable_factory.rs b/src/transport/seekable/seekable_factory.rs
index c2d4999..addf8e4 100644
--- a/src/transport/seekable/seekable_factory.rs
+++ b/src/transport/seekable/seekable_factory.rs
@@ -21,9 +21,9 @@ impl SeekableTransportFactory {
     ) -> CliResult<Option<BufReader<Box<dyn ReadSeek>>>> {
         let mut reader: Option<Box<dyn ReadSeek>> = None;
         for factory in &mut self.transports.iter() {
-            match factory.can_open(path) {
-                false => continue,
-                true => reader = Some(factory.open(path)?),
+            if factory.can_open(path) {
+                reader = Some(factory.open(path)?);
+                break;
             }
         }
         Ok(match reader {
diff --git a/src/transport/streaming/previewer_factory.rs b/src/transport/streaming/previewer_factory.rs
index fc6452c..95196b2 100644
--- a/src/transport/streaming/previewer_factory.rs
+++ b/src/transport/streaming/previewer_factory.rs
@@ -21,9 +21,9 @@ impl PreviewerTransportFactory {
     ) -> CliResult<Option<ChopperBufPreviewer<Box<dyn Read>>>> {
         let mut reader: Option<Box<dyn Read>> = None;
         for factory in &mut self.transports.iter() {
-            match factory.can_open(path) {
-                false => continue,
-                true => reader = Some(factory.open(path)?),
+            if factory.can_open(path) {
+                reader = Some(factory.open(path)?);
+                break;
             }
         }
         Ok(match reader {
-- 
2.43.0


From 8453cf0ea22bad6f6ad827799d953040af283f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 12/29] fix: handle csv input without rows and rows shorter or
 longer than the header

---
 src/source/csv_source.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 944b6a2..80de1db 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -5,7 +5,7 @@ use csv::{self, Trim};
 use crate::chopper::chopper::Source;
 use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
-use crate::error::CliResult;
+use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
 use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
 use crate::util::csv_util;
@@ -60,7 +60,10 @@ impl CSVSource {
             .from_reader(reader);
 
         // get first row
-        let first_row: csv::StringRecord = reader.records().next().unwrap()?;
+        let first_row: csv::StringRecord = match reader.records().next() {
+            Some(r) => r?,
+            None => return Err(Error::from("CSVSource -- input has no data rows")),
+        };
         let field_count = first_row.len();
 
         // get field names if available
@@ -78,6 +81,7 @@ impl CSVSource {
         }
 
         // initialize next_row
+        let field_count = field_names.len();
         let timestamp: Nanos = 0;
         let field_values: Vec<FieldValue> = vec![FieldValue::None; field_count];
         let next_row = Row {
@@ -114,9 +118,19 @@ impl CSVSource {
     }
 
     fn update_row(&mut self, next_record: csv::StringRecord) -> CliResult<()> {
-        for i in 0..next_record.len() {
-            self.next_row.field_values[i] =
-                FieldValue::String(next_record.get(i).unwrap().to_string());
+        let field_count = self.next_row.field_values.len();
+        if next_record.len() > field_count {
+            return Err(Error::from(format!(
+                "CSVSource -- row has {} fields, but there are only {} columns",
+                next_record.len(),
+                field_count
+            )));
+        }
+        for i in 0..field_count {
+            self.next_row.field_values[i] = match next_record.get(i) {
+                Some(field) => FieldValue::String(field.to_string()),
+                None => FieldValue::None,
+            };
         }
 
         self.next_row.timestamp = csv_timestamp::get_timestamp(
-- 
2.43.0


From 5f3c2a143c36b3a2e6f5e85b6336ee5192756f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 13/29] fix: report a missing csv timestamp column instead of
 panicking

---
 src/source/csv_timestamp.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 748517f..e00537d 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -85,7 +85,7 @@ pub fn get_timestamp(
     timestamp_fmt: &TimestampFmt,
     timezone: &ChopperTz,
 ) -> CliResult<Nanos> {
-    let timestamp = get_timestamp_string(record, timestamp_col);
+    let timestamp = get_timestamp_string(record, timestamp_col)?;
 
     let timestamp = match timestamp_fmt {
         TimestampFmt::Units(units) => {
@@ -152,7 +152,7 @@ fn get_timestamp_fmt_from_user_spec(
     format: String,
     timezone: &ChopperTz,
 ) -> CliResult<TimestampFmt> {
-    let timestamp = get_timestamp_string(first_row, timestamp_col);
+    let timestamp = get_timestamp_string(first_row, timestamp_col)?;
 
     if let Ok(_) = DateTime::parse_from_str(&timestamp, &format) {
         Ok(TimestampFmt::DateTimeIncludesTz(format))
@@ -172,19 +172,32 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
-fn get_timestamp_string(record: &csv::StringRecord, timestamp_col: &TimestampCol) -> String {
-    match timestamp_col {
-        TimestampCol::Index(i) => record.get(*i).unwrap().to_string(),
+fn get_field(record: &csv::StringRecord, index: usize) -> CliResult<&str> {
+    match record.get(index) {
+        Some(field) => Ok(field),
+        None => Err(Error::from(format!(
+            "Timestamp column with index {} is missing.",
+            index
+        ))),
+    }
+}
+
+fn get_timestamp_string(
+    record: &csv::StringRecord,
+    timestamp_col: &TimestampCol,
+) -> CliResult<String> {
+    Ok(match timestamp_col {
+        TimestampCol::Index(i) => get_field(record, *i)?.to_string(),
         TimestampCol::DateTimeIndex(d, t) => {
-            let date = record.get(*d).unwrap();
-            let time = record.get(*t).unwrap();
+            let date = get_field(record, *d)?;
+            let time = get_field(record, *t)?;
             let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
             timestamp.push_str(date);
             timestamp.push('#');
             timestamp.push_str(time);
             timestamp
         }
-    }
+    })
 }
 
 fn get_timestamp_col(
@@ -332,7 +345,7 @@ fn get_timestamp_fmt_auto_with_index(
         return Ok(TimestampFmt::Units(units));
     }
 
-    let timestamp = first_row.get(time_idx).unwrap();
+    let timestamp = get_field(first_row, time_idx)?;
 
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
@@ -387,8 +400,8 @@ fn get_timestamp_fmt_auto_with_datetimeindex(
     timezone: &ChopperTz,
     first_row: &csv::StringRecord,
 ) -> CliResult<TimestampFmt> {
-    let date = first_row.get(date_idx).unwrap();
-    let time = first_row.get(time_idx).unwrap();
+    let date = get_field(first_row, date_idx)?;
+    let time = get_field(first_row, time_idx)?;
 
     let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
     timestamp.push_str(date);
-- 
2.43.0


From f6e2cb98006c1e7f85e6695bb6bb1c9f7f1cf892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 14/29] fix: report csv epoch timestamps that do not fit

---
 src/source/csv_timestamp.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index e00537d..f1949d5 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -93,11 +93,15 @@ pub fn get_timestamp(
                 Ok(ts) => ts,
                 Err(err) => return Err(Error::Custom(err.to_string())),
             };
-            match units {
-                TimestampUnits::Seconds => timestamp * 1_000_000_000,
-                TimestampUnits::Millis => timestamp * 1_000_000,
-                TimestampUnits::Micros => timestamp * 1_000,
-                TimestampUnits::Nanos => timestamp,
+            let nanos_per_unit = match units {
+                TimestampUnits::Seconds => 1_000_000_000,
+                TimestampUnits::Millis => 1_000_000,
+                TimestampUnits::Micros => 1_000,
+                TimestampUnits::Nanos => 1,
+            };
+            match timestamp.checked_mul(nanos_per_unit) {
+                Some(ts) => ts,
+                None => return Err(Error::from(format!("Timestamp {} is too large.", timestamp))),
             }
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-- 
2.43.0


From 07607e4cb1572eedb1d613544adae2ab7f78d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 15/29] fix: report dates that timestamps cannot represent

---
 src/source/csv_timestamp.rs | 12 ++++--------
 src/util/timestamp_util.rs  |  6 +++---
 src/util/tz.rs              | 14 ++++++++++++++
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index f1949d5..07ae6d2 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -5,7 +5,7 @@ use chrono::{DateTime, NaiveDate, NaiveDateTime};
 use crate::chopper::types::{Header, Nanos};
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::{DateColIdx, TimeColIdx, TimestampColConfig, TimestampFmtConfig};
-use crate::util::tz::ChopperTz;
+use crate::util::tz::{to_nanos, ChopperTz};
 
 // https://docs.rs/chrono/0.4/chrono/format/strftime/index.html
 const TIME_FORMATS_WITH_TZ: [&'static str; 1] = ["%+"];
@@ -105,20 +105,16 @@ pub fn get_timestamp(
             }
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-            DateTime::parse_from_str(&timestamp, format)?.timestamp_nanos() as u64
+            to_nanos(&DateTime::parse_from_str(&timestamp, format)?)?
         }
         TimestampFmt::DateTimeNeedsExternalTz(format) => {
             let naive_date_time = NaiveDateTime::parse_from_str(&timestamp, format)?;
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
         TimestampFmt::DateNeedsExternalTz(format) => {
             let naive_date = NaiveDate::parse_from_str(&timestamp, format)?;
             let naive_date_time = naive_date.and_hms(0, 0, 0);
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
     };
     Ok(timestamp)
diff --git a/src/util/timestamp_util.rs b/src/util/timestamp_util.rs
index 5d63fe7..ef45c11 100644
--- a/src/util/timestamp_util.rs
+++ b/src/util/timestamp_util.rs
@@ -3,7 +3,7 @@ use chrono::{DateTime, NaiveDateTime};
 use crate::chopper::types::Nanos;
 use crate::error::{CliResult, Error};
 use crate::source::csv_timestamp::{RANGE_MICROS, RANGE_MILLIS, RANGE_NANOS, RANGE_SECONDS};
-use crate::util::tz::ChopperTz;
+use crate::util::tz::{to_nanos, ChopperTz};
 
 pub static DEFAULT_MONTH: &str = "01";
 pub static DEFAULT_DAY: &str = "01";
@@ -74,14 +74,14 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     // try the formats that don't need external TZ first
     for format in &DATETIME_RANGE_FORMATS_WITH_TZ {
         if let Ok(dt) = DateTime::parse_from_str(&datetime, format) {
-            return Ok(dt.timestamp_nanos() as Nanos);
+            return to_nanos(&dt);
         };
     }
 
     // try available datetime formats that need external TZ
     for format in DATETIME_RANGE_FORMATS_NEED_TZ.iter() {
         if let Ok(ndt) = NaiveDateTime::parse_from_str(&datetime, &format) {
-            return Ok(timezone.from_local_datetime(&ndt)?.timestamp_nanos() as Nanos);
+            return to_nanos(&timezone.from_local_datetime(&ndt)?);
         }
     }
 
diff --git a/src/util/tz.rs b/src/util/tz.rs
index 129c0f9..2c67d5a 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -4,6 +4,7 @@ use std::env;
 use chrono::{DateTime, LocalResult, NaiveDateTime, TimeZone};
 use chrono_tz::Tz;
 
+use crate::chopper::types::Nanos;
 use crate::error::CliResult;
 use crate::error::Error::Custom;
 
@@ -81,6 +82,19 @@ impl ChopperTz {
     }
 }
 
+/// nanoseconds since the epoch; times before it and too far after it have none
+pub fn to_nanos<T: TimeZone>(datetime: &DateTime<T>) -> CliResult<Nanos> {
+    let nanos = datetime.timestamp() as i128 * 1_000_000_000
+        + datetime.timestamp_subsec_nanos() as i128;
+    if nanos < 0 || nanos > u64::max_value() as i128 {
+        return Err(Custom(format!(
+            "Date/time '{}' is outside of the range of timestamps.",
+            datetime.naive_utc()
+        )));
+    }
+    Ok(nanos as Nanos)
+}
+
 impl From<Tz> for ChopperTz {
     fn from(original: Tz) -> Self {
         ChopperTz {
-- 
2.43.0


From ae3ad0b5397f137f2bc6f2e16c4b04def46f26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 16/29] fix: report an invalid time zone instead of panicking

---
 src/chopper_cli.rs |  2 +-
 src/util/tz.rs     | 33 ++++++++++++++++++---------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index d28800a..ce95e84 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -42,7 +42,7 @@ pub fn parse_cli_args(
         error::turn_on_backtrace()
     }
 
-    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map);
+    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map)?;
 
     let timestamp_range = TimestampRange::new(
         matches.value_of("begin"),
diff --git a/src/util/tz.rs b/src/util/tz.rs
index 2c67d5a..ce6da84 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -17,9 +17,9 @@ impl ChopperTz {
     pub fn new_from_cli_arg(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> ChopperTz {
-        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map);
-        ChopperTz { timezone }
+    ) -> CliResult<ChopperTz> {
+        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map)?;
+        Ok(ChopperTz { timezone })
     }
 
     pub fn new_always_fails() -> ChopperTz {
@@ -29,23 +29,26 @@ impl ChopperTz {
     fn resolve_timezone(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> Option<Tz> {
+    ) -> CliResult<Option<Tz>> {
         let timezone_arg = match cli_timezone_arg {
             None => match env::var("CHOPPER_TZ") {
-                Ok(s) => Some(s),
-                Err(_) => None,
+                Ok(s) => s,
+                Err(_) => return Ok(None),
             },
-            Some(s) => Some(s.to_owned()),
-        }?;
+            Some(s) => s.to_owned(),
+        };
 
-        let timezone: Tz = match timezone_map {
-            None => timezone_arg.parse().unwrap(),
-            Some(map) => match map.get(timezone_arg.as_str()) {
-                None => timezone_arg.parse().unwrap(),
-                Some(s) => *s,
-            },
+        let timezone = match timezone_map {
+            None => None,
+            Some(map) => map.get(timezone_arg.as_str()).copied(),
         };
-        Some(timezone)
+        match timezone {
+            Some(timezone) => Ok(Some(timezone)),
+            None => match timezone_arg.parse() {
+                Ok(timezone) => Ok(Some(timezone)),
+                Err(e) => Err(Custom(format!("Timezone '{}': {}", timezone_arg, e))),
+            },
+        }
     }
 
     pub fn from_local_datetime(&self, local: &NaiveDateTime) -> CliResult<DateTime<Tz>> {
-- 
2.43.0


From 58b278be0ddd474a441ded6b3a25563a588cbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 17/29] fix: refuse --epoch together with --human

---
 src/cli_app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 7db1f81..4c72024 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -91,7 +91,7 @@ impl CliApp {
                     .long("epoch")
                     .help("csv output only: time column has epoch timestamps")
                     .takes_value(false)
-                    .conflicts_with("human")
+                    .conflicts_with("csv_out_time_fmt_human")
             )
             .arg(
                 Arg::with_name("csv_out_time_fmt_human")
@@ -99,7 +99,7 @@ impl CliApp {
                     .long("human")
                     .help("csv output only: time column is human-readable; default")
                     .takes_value(false)
-                    .conflicts_with("epoch")
+                    .conflicts_with("csv_out_time_fmt_epoch")
             )
             .arg(
                 Arg::with_name("csv_out_time_col_units")
-- 
2.43.0


From 25d1be32099f799ef94483b06e166f1c32c146ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 18/29] fix: accept --print-time values in any case

---
 src/chopper_cli.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index ce95e84..5a4cc4c 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -214,11 +214,11 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
 
 fn parse_csv_output_config(matches: &ArgMatches, timezone: ChopperTz) -> CSVOutputConfig {
     let csv_out_delimiter = matches.value_of("csv_out_delimiter").unwrap();
-    let csv_out_print_time_col = match matches.value_of("csv_out_print_time_col").unwrap() {
-        "yes" => true,
-        "no" => false,
-        _ => unreachable!(),
-    };
+    // possible values are matched without regard to case
+    let csv_out_print_time_col = matches
+        .value_of("csv_out_print_time_col")
+        .unwrap()
+        .eq_ignore_ascii_case("yes");
 
     let time_col_name = match matches.value_of("csv_out_time_col_name") {
         None => None,
-- 
2.43.0


From c3b6c7eeb21c429ca9dadfb00591f5abd615a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 19/29] fix: write infinite and NaN values to csv as such

---
 src/write/csv_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index a5b8196..24b907c 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -116,9 +116,12 @@ impl DataSink for CSVSink {
                     ))
                 }
                 FieldValue::Char(x) => write!(self.writer, "{}", x)?,
+                // dtoa only handles finite numbers
+                FieldValue::Double(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Double(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
+                FieldValue::Float(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Float(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
-- 
2.43.0


From 8493b983885ade82f55571844c8482f77229db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 20/29] fix: drop trailing extra columns of files in a
 multi-file input

Also present the given header when there are no files.
---
 src/source/multi_file_source.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index a92bcc1..21915c0 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -25,7 +25,11 @@ impl SerialMultiFileSource {
         external_common_header: Option<Header>,
     ) -> CliResult<SerialMultiFileSource> {
         let (common_header, current_source, swap_map) = match path_provider.get_next_path() {
-            None => (Header::new(Vec::new(), Vec::new()), None, Vec::new()),
+            None => {
+                let common_header =
+                    external_common_header.unwrap_or(Header::new(Vec::new(), Vec::new()));
+                (common_header, None, Vec::new())
+            }
             Some(first_path) => {
                 let first_source =
                     Self::create_source_from_path(&mut input_factory, &first_path, &input_format)?;
@@ -182,8 +186,9 @@ impl Source for SerialMultiFileSource {
                                 for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {
                                     next_row.field_values.swap(ref_idx, new_idx);
                                 }
-                                next_row.field_values.truncate(self.swap_map.len());
                             }
+                            let num_columns = self.common_header.field_names().len();
+                            next_row.field_values.truncate(num_columns);
                             return Ok(Some(next_row));
                         }
                     }
-- 
2.43.0


From bf8100081355fc3499cfbcd870cb8910f648bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 21/29] fix: report errors while listing a directory instead of
 skipping files

---
 src/transport/dir/file.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/transport/dir/file.rs b/src/transport/dir/file.rs
index 5aa1ee9..fb64bbb 100644
--- a/src/transport/dir/file.rs
+++ b/src/transport/dir/file.rs
@@ -16,13 +16,11 @@ impl DirTransport for DirFileTransport {
     }
 
     fn read_dir(&self, path: &Path) -> CliResult<Box<dyn Iterator<Item = PathBuf>>> {
-        match path.read_dir() {
-            Ok(dir_entry_iter) => {
-                let path_iter = dir_entry_iter.filter_map(|entry| Some(entry.ok()?.path()));
-                Ok(Box::new(path_iter))
-            }
-            Err(e) => Err(e.into()),
+        let mut paths = Vec::new();
+        for entry in path.read_dir()? {
+            paths.push(entry?.path());
         }
+        Ok(Box::new(paths.into_iter()))
     }
 
     fn box_clone(&self) -> Box<dyn DirTransport> {
-- 
2.43.0


From 7eff277b1dcc694a8a392ebadaef3b7850c9fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 22/29] fix: accept zip archives whatever their comment, extra
 fields and zip64 records

The search for the end of central directory record stopped at a signature
inside the comment, the sizes of extra fields left out their headers, and
zip64 archives whose counts moved to the zip64 record were refused.
---
 src/decompress/zip.rs | 58 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2d0e916..59d2fe8 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -16,6 +16,8 @@ const MAX_EOCDR_SEARCH_BACK_OFFSET: i64 = 1 << 20; // minizip lib uses this cons
 const LOCAL_HEADER_FIXED_FIELDS_SIZE: i64 = 22; // excludes signature and variable fields
 const END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE: i64 = 18; // excludes signature and variable fields
 const ZIP64_END_OF_CENTRAL_DIRECTORY_LOCATOR_FIXED_FIELDS_SIZE: i64 = 16; // excludes signature and variable fields
+const EXTRA_FIELD_HEADER_SIZE: u64 = 4; // id and size of a single extra field
+const ZIP64_VALUE_ELSEWHERE: u16 = 0xffff;
 const SIGNATURE_SIZE: i64 = 4; // all of the record signatures are 4 bytes
 
 // based on https://www.pkware.com/documents/casestudies/APPNOTE.TXT
@@ -119,11 +121,18 @@ fn find_eocdr_and_prepare_to_read<T: Read + io::Seek>(reader: &mut T) -> io::Res
     let file_size = reader.seek(io::SeekFrom::End(0))?;
     let max_back = std::cmp::min(file_size, MAX_EOCDR_SEARCH_BACK_OFFSET as u64) as i64;
 
-    let mut pos = 4; // '4' to make sure we can read the signature
+    // the comment is the last thing in the file and may contain anything, signatures included,
+    // so only accept a record whose comment ends exactly where the file does
+    let min_pos = SIGNATURE_SIZE + END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE;
+    let mut pos = min_pos;
     while pos < max_back {
         reader.seek(io::SeekFrom::End(-pos))?;
         if reader.read_u32::<LittleEndian>()? == END_OF_CENTRAL_DIR_RECORD_SIGNATURE {
-            return Ok(());
+            reader.seek(io::SeekFrom::End(-pos + min_pos - 2))?;
+            if reader.read_u16::<LittleEndian>()? as i64 == pos - min_pos {
+                reader.seek(io::SeekFrom::End(-pos + SIGNATURE_SIZE))?;
+                return Ok(());
+            }
         }
         pos += 1;
     }
@@ -150,12 +159,15 @@ fn get_start_of_central_dir_offset<R: Read + Seek>(
     {
         // kinda weird, but possibly just a very small compressed file with no zip64 records, so
         // assume it's a file with no zip64 records and fall back to end of central directory record
+        eocdr.check_single_file_on_single_disk(false)?;
         return Ok(eocdr.start_of_central_directory_offset as u64);
     }
 
     if reader.read_u32::<LittleEndian>()? != ZIP64_END_OF_CENTRAL_DIR_LOCATOR_SIGNATURE {
+        eocdr.check_single_file_on_single_disk(false)?;
         return Ok(eocdr.start_of_central_directory_offset as u64);
     }
+    eocdr.check_single_file_on_single_disk(true)?;
 
     let zip64_eocdr_offset = read_zip64_eocdl_and_get_eocdr_offset(reader)?;
     reader.seek(io::SeekFrom::Start(zip64_eocdr_offset))?;
@@ -215,6 +227,10 @@ fn read_zip64_eocdr_and_get_central_dir_offset<T: Read + io::Seek>(
 }
 
 struct EndOfCentralDirRecord {
+    pub disk_number: u16,
+    pub disk_number_with_start_of_central_directory: u16,
+    pub number_of_central_directory_entries_on_this_disk: u16,
+    pub total_number_of_central_directory_entries: u16,
     pub central_directory_size: u32,
     pub start_of_central_directory_offset: u32,
     pub zip_file_comment_length: i64,
@@ -231,8 +247,25 @@ impl EndOfCentralDirRecord {
         let zip_file_comment_length = reader.read_u16::<LittleEndian>()? as i64;
         reader.seek(SeekFrom::Current(zip_file_comment_length))?;
 
-        if total_number_of_central_directory_entries != 1
-            || number_of_central_directory_entries_on_this_disk != 1
+        Ok(EndOfCentralDirRecord {
+            disk_number,
+            disk_number_with_start_of_central_directory,
+            number_of_central_directory_entries_on_this_disk,
+            total_number_of_central_directory_entries,
+            central_directory_size,
+            start_of_central_directory_offset,
+            zip_file_comment_length,
+        })
+    }
+
+    /// counts and disk numbers that have moved to the zip64 record are all ones here
+    fn check_single_file_on_single_disk(&self, is_zip64: bool) -> io::Result<()> {
+        let matches = |value: u16, expected: u16| {
+            value == expected || (is_zip64 && value == ZIP64_VALUE_ELSEWHERE)
+        };
+
+        if !matches(self.total_number_of_central_directory_entries, 1)
+            || !matches(self.number_of_central_directory_entries_on_this_disk, 1)
         {
             return Err(Error::new(
                 ErrorKind::InvalidData,
@@ -240,18 +273,16 @@ impl EndOfCentralDirRecord {
             ));
         }
 
-        if disk_number != 0 || disk_number_with_start_of_central_directory != 0 {
+        if !matches(self.disk_number, 0)
+            || !matches(self.disk_number_with_start_of_central_directory, 0)
+        {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "multi-disk zip archives not supported",
             ));
         }
 
-        Ok(EndOfCentralDirRecord {
-            central_directory_size,
-            start_of_central_directory_offset,
-            zip_file_comment_length,
-        })
+        Ok(())
     }
 }
 
@@ -349,7 +380,7 @@ impl CentralDirHeader {
     ) -> io::Result<(u64, u64, u64)> {
         let mut total_bytes_read = 0;
 
-        while total_bytes_read < extra_field_length {
+        while total_bytes_read + EXTRA_FIELD_HEADER_SIZE <= extra_field_length {
             let header_id = reader.read_u16::<LittleEndian>()?;
             let data_size = reader.read_u16::<LittleEndian>()? as i64;
 
@@ -369,15 +400,14 @@ impl CentralDirHeader {
                 }
             }
 
-            if data_read > data_size {
+            total_bytes_read += EXTRA_FIELD_HEADER_SIZE + data_size as u64;
+            if data_read > data_size || total_bytes_read > extra_field_length {
                 return Err(Error::new(
                     ErrorKind::InvalidData,
                     "malformed extensible data",
                 ));
             }
             reader.seek(SeekFrom::Current(data_size - data_read))?;
-
-            total_bytes_read += data_size as u64;
         }
 
         Ok((uncompressed_size, compressed_size, local_header_offset))
-- 
2.43.0


From e2f7c0c1f67ea3587a977e4ff29704b23a53e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 23/29] fix: read all frames of a zst stream and verify their
 checksums

---
 src/decompress/zst.rs | 51 +++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d6989a..668ab20 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,12 +1,12 @@
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
 }
 
-impl<R: Read> ZstReader<R> {
+impl<R: BufRead> ZstReader<R> {
     pub fn new(reader: R) -> io::Result<ZstReader<R>> {
         let mut zst_reader = ZstReader {
             inner: reader,
@@ -22,20 +22,15 @@ impl<R: Read> ZstReader<R> {
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
-}
 
-impl<R: Read> Read for ZstReader<R> {
-    /// this impl works best with buffered reader on top of it, since it
-    /// tries to fill the buf as much as possible by potentially decoding
-    /// on every invocation
-    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+    fn decode_up_to(&mut self, num_bytes: usize) -> io::Result<()> {
         while !self.decoder.is_finished() {
             let bytes_available = self.decoder.can_collect();
-            if bytes_available >= buf.len() {
+            if bytes_available >= num_bytes {
                 break;
             }
 
-            let additional_bytes_needed = buf.len() - bytes_available;
+            let additional_bytes_needed = num_bytes - bytes_available;
             if let Err(e) = self.decoder.decode_blocks(
                 &mut self.inner,
                 BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
@@ -43,7 +38,41 @@ impl<R: Read> Read for ZstReader<R> {
                 return Err(io::Error::new(io::ErrorKind::Other, e));
             }
         }
+        Ok(())
+    }
+
+    /// only makes sense once everything in the frame has been read
+    fn check_checksum(&self) -> io::Result<()> {
+        let checksum = self.decoder.get_checksum_from_data();
+        if checksum.is_some() && checksum != self.decoder.get_calculated_checksum() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "zst checksum mismatch",
+            ));
+        }
+        Ok(())
+    }
+}
 
-        self.decoder.read(buf)
+impl<R: BufRead> Read for ZstReader<R> {
+    /// this impl works best with buffered reader on top of it, since it
+    /// tries to fill the buf as much as possible by potentially decoding
+    /// on every invocation
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            self.decode_up_to(buf.len())?;
+
+            let bytes_read = self.decoder.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+
+            self.check_checksum()?;
+            if self.inner.fill_buf()?.is_empty() {
+                return Ok(0);
+            }
+            // there is another frame
+            self.init()?;
+        }
     }
 }
-- 
2.43.0


From c7b4cc62c31fda5a9f389715782692cf4519c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 24/29] fix: read all members of gz and lz4 streams and notice
 cut off lz4 block streams

---
 src/decompress/decompress.rs |  18 ++----
 src/decompress/lz4.rs        | 111 +++++++++++++++++++++++++++++++++++
 src/decompress/mod.rs        |   1 +
 3 files changed, 118 insertions(+), 12 deletions(-)
 create mode 100644 src/decompress/lz4.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index b081007..ecd86bc 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -2,12 +2,11 @@ use std::io;
 use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
-use flate2::read::GzDecoder;
-use lz_fear::LZ4FrameReader;
+use flate2::read::MultiGzDecoder;
 
-use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
+use crate::decompress::lz4::{Lz4BlocksReader, Lz4FramesReader};
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -116,7 +115,7 @@ pub fn decompress(
 }
 
 fn decompress_gz(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = GzDecoder::new(reader);
+    let decoder = MultiGzDecoder::new(reader);
     Ok(Box::new(decoder))
 }
 
@@ -130,17 +129,12 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let frame_reader = match LZ4FrameReader::new(reader) {
-        Ok(frame_reader) => frame_reader,
-        Err(e) => {
-            return CliResult::Err(Error::Io(io::Error::new(io::ErrorKind::Other, e)));
-        }
-    };
-    Ok(Box::new(frame_reader.into_read()))
+    let decoder = Lz4FramesReader::new(reader)?;
+    Ok(Box::new(decoder))
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = Lz4JBlockReader::new(reader, true, true);
+    let decoder = Lz4BlocksReader::new(reader);
     Ok(Box::new(decoder))
 }
 
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
new file mode 100644
index 0000000..d9b78c2
--- /dev/null
+++ b/src/decompress/lz4.rs
@@ -0,0 +1,111 @@
+use std::cell::RefCell;
+use std::io::{self, BufRead, Error, ErrorKind, Read};
+use std::rc::Rc;
+
+use lz_fear::framed::LZ4FrameIoReader;
+use lz_fear::LZ4FrameReader;
+use paku::lz4_jblock::Lz4JBlockReader;
+
+/// lets us keep an eye on a reader that has been given away to a decoder
+struct SharedReader<R>(Rc<RefCell<R>>);
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
+
+/// reads all frames of a lz4 stream, as opposed to just the first one
+pub struct Lz4FramesReader<R: Read> {
+    inner: Rc<RefCell<R>>,
+    frame: LZ4FrameIoReader<'static, SharedReader<R>>,
+}
+
+impl<R: BufRead> Lz4FramesReader<R> {
+    pub fn new(reader: R) -> io::Result<Lz4FramesReader<R>> {
+        let inner = Rc::new(RefCell::new(reader));
+        let frame = Self::next_frame(&inner)?;
+        Ok(Lz4FramesReader { inner, frame })
+    }
+
+    fn next_frame(
+        inner: &Rc<RefCell<R>>,
+    ) -> io::Result<LZ4FrameIoReader<'static, SharedReader<R>>> {
+        match LZ4FrameReader::new(SharedReader(inner.clone())) {
+            Ok(frame_reader) => Ok(frame_reader.into_read()),
+            Err(e) => Err(Error::new(ErrorKind::Other, e)),
+        }
+    }
+}
+
+impl<R: BufRead> Read for Lz4FramesReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            let bytes_read = self.frame.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+            if self.inner.borrow_mut().fill_buf()?.is_empty() {
+                return Ok(0);
+            }
+            self.frame = Self::next_frame(&self.inner)?;
+        }
+    }
+}
+
+const BLOCK_HEADER_SIZE: usize = 21; // magic, token, both lengths and checksum
+const BLOCK_MAGIC: &[u8] = b"LZ4Block";
+
+/// remembers as many of the last bytes read as there are in a block header
+struct TailReader<R> {
+    reader: R,
+    tail: [u8; BLOCK_HEADER_SIZE],
+}
+
+impl<R: Read> Read for TailReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let bytes_read = self.reader.read(buf)?;
+        let count = bytes_read.min(BLOCK_HEADER_SIZE);
+        self.tail.rotate_left(count);
+        self.tail[BLOCK_HEADER_SIZE - count..]
+            .copy_from_slice(&buf[bytes_read - count..bytes_read]);
+        Ok(bytes_read)
+    }
+}
+
+/// reads lz4 block streams, and complains about ones that lack the empty block at the end,
+/// since it is the only way to tell that such stream was cut off
+pub struct Lz4BlocksReader<R> {
+    inner: Rc<RefCell<TailReader<R>>>,
+    blocks: Lz4JBlockReader<SharedReader<TailReader<R>>>,
+}
+
+impl<R: Read> Lz4BlocksReader<R> {
+    pub fn new(reader: R) -> Lz4BlocksReader<R> {
+        let inner = Rc::new(RefCell::new(TailReader {
+            reader,
+            tail: [0; BLOCK_HEADER_SIZE],
+        }));
+        let blocks = Lz4JBlockReader::new(SharedReader(inner.clone()), true, true);
+        Lz4BlocksReader { inner, blocks }
+    }
+
+    fn saw_empty_block(&self) -> bool {
+        let tail = &self.inner.borrow().tail;
+        let lengths_and_checksum = &tail[BLOCK_MAGIC.len() + 1..];
+        tail.starts_with(BLOCK_MAGIC) && lengths_and_checksum.iter().all(|b| *b == 0)
+    }
+}
+
+impl<R: Read> Read for Lz4BlocksReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let bytes_read = self.blocks.read(buf)?;
+        if bytes_read == 0 && !buf.is_empty() && !self.saw_empty_block() {
+            return Err(Error::new(
+                ErrorKind::UnexpectedEof,
+                "lz4 block stream was cut off",
+            ));
+        }
+        Ok(bytes_read)
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index b7b7a1f..7de53f6 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,4 +1,5 @@
 mod crc32;
 pub mod decompress;
+mod lz4;
 pub mod zip;
 mod zst;
-- 
2.43.0


From 83406fe8432e8a28c964912fc771cd2de7dc3109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 25/29] fix: only look for zip64 records when the end record
 refers to them

A file name or comment that happens to look like a zip64 locator made a
good archive unreadable.
---
 src/decompress/zip.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 59d2fe8..77dd401 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -18,6 +18,7 @@ const END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE: i64 = 18; // excludes s
 const ZIP64_END_OF_CENTRAL_DIRECTORY_LOCATOR_FIXED_FIELDS_SIZE: i64 = 16; // excludes signature and variable fields
 const EXTRA_FIELD_HEADER_SIZE: u64 = 4; // id and size of a single extra field
 const ZIP64_VALUE_ELSEWHERE: u16 = 0xffff;
+const ZIP64_LONG_VALUE_ELSEWHERE: u32 = 0xffff_ffff;
 const SIGNATURE_SIZE: i64 = 4; // all of the record signatures are 4 bytes
 
 // based on https://www.pkware.com/documents/casestudies/APPNOTE.TXT
@@ -147,6 +148,12 @@ fn get_start_of_central_dir_offset<R: Read + Seek>(
     reader: &mut R,
     eocdr: &EndOfCentralDirRecord,
 ) -> io::Result<u64> {
+    if !eocdr.refers_to_zip64() {
+        // file names, comments and such may look like a zip64 locator, so don't even try
+        eocdr.check_single_file_on_single_disk(false)?;
+        return Ok(eocdr.start_of_central_directory_offset as u64);
+    }
+
     if reader
         .seek(SeekFrom::End(
             -(SIGNATURE_SIZE
@@ -258,6 +265,16 @@ impl EndOfCentralDirRecord {
         })
     }
 
+    /// at least one of the values did not fit and has moved to the zip64 record
+    fn refers_to_zip64(&self) -> bool {
+        self.disk_number == ZIP64_VALUE_ELSEWHERE
+            || self.disk_number_with_start_of_central_directory == ZIP64_VALUE_ELSEWHERE
+            || self.number_of_central_directory_entries_on_this_disk == ZIP64_VALUE_ELSEWHERE
+            || self.total_number_of_central_directory_entries == ZIP64_VALUE_ELSEWHERE
+            || self.central_directory_size == ZIP64_LONG_VALUE_ELSEWHERE
+            || self.start_of_central_directory_offset == ZIP64_LONG_VALUE_ELSEWHERE
+    }
+
     /// counts and disk numbers that have moved to the zip64 record are all ones here
     fn check_single_file_on_single_disk(&self, is_zip64: bool) -> io::Result<()> {
         let matches = |value: u16, expected: u16| {
-- 
2.43.0


From 6cf6329031c6237ada290c7d92bbf5cd98bfdfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 26/29] fix: lzf input ended at the first empty chunk, dropping
 the rest of the stream

---
 src/decompress/decompress.rs    |  3 +--
 src/decompress/lz4.rs           | 13 +++----------
 src/decompress/lzf.rs           | 32 ++++++++++++++++++++++++++++++++
 src/decompress/mod.rs           |  2 ++
 src/decompress/shared_reader.rs | 18 ++++++++++++++++++
 5 files changed, 56 insertions(+), 12 deletions(-)
 create mode 100644 src/decompress/lzf.rs
 create mode 100644 src/decompress/shared_reader.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index ecd86bc..4699e55 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -4,9 +4,8 @@ use std::io::{BufReader, Read};
 use byteorder::{BigEndian, ReadBytesExt};
 use flate2::read::MultiGzDecoder;
 
-use paku::lzf::LzfReader;
-
 use crate::decompress::lz4::{Lz4BlocksReader, Lz4FramesReader};
+use crate::decompress::lzf::LzfReader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
index d9b78c2..7a63443 100644
--- a/src/decompress/lz4.rs
+++ b/src/decompress/lz4.rs
@@ -6,14 +6,7 @@ use lz_fear::framed::LZ4FrameIoReader;
 use lz_fear::LZ4FrameReader;
 use paku::lz4_jblock::Lz4JBlockReader;
 
-/// lets us keep an eye on a reader that has been given away to a decoder
-struct SharedReader<R>(Rc<RefCell<R>>);
-
-impl<R: Read> Read for SharedReader<R> {
-    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        self.0.borrow_mut().read(buf)
-    }
-}
+use crate::decompress::shared_reader::SharedReader;
 
 /// reads all frames of a lz4 stream, as opposed to just the first one
 pub struct Lz4FramesReader<R: Read> {
@@ -31,7 +24,7 @@ impl<R: BufRead> Lz4FramesReader<R> {
     fn next_frame(
         inner: &Rc<RefCell<R>>,
     ) -> io::Result<LZ4FrameIoReader<'static, SharedReader<R>>> {
-        match LZ4FrameReader::new(SharedReader(inner.clone())) {
+        match LZ4FrameReader::new(SharedReader::new(inner.clone())) {
             Ok(frame_reader) => Ok(frame_reader.into_read()),
             Err(e) => Err(Error::new(ErrorKind::Other, e)),
         }
@@ -86,7 +79,7 @@ impl<R: Read> Lz4BlocksReader<R> {
             reader,
             tail: [0; BLOCK_HEADER_SIZE],
         }));
-        let blocks = Lz4JBlockReader::new(SharedReader(inner.clone()), true, true);
+        let blocks = Lz4JBlockReader::new(SharedReader::new(inner.clone()), true, true);
         Lz4BlocksReader { inner, blocks }
     }
 
diff --git a/src/decompress/lzf.rs b/src/decompress/lzf.rs
new file mode 100644
index 0000000..6895787
--- /dev/null
+++ b/src/decompress/lzf.rs
@@ -0,0 +1,32 @@
+use std::cell::RefCell;
+use std::io::{self, BufRead, Read};
+use std::rc::Rc;
+
+use paku::lzf;
+
+use crate::decompress::shared_reader::SharedReader;
+
+/// keeps on reading past chunks that are empty, as opposed to taking those for the end
+pub struct LzfReader<R: Read> {
+    inner: Rc<RefCell<R>>,
+    chunks: lzf::LzfReader<SharedReader<R>>,
+}
+
+impl<R: BufRead> LzfReader<R> {
+    pub fn new(reader: R) -> LzfReader<R> {
+        let inner = Rc::new(RefCell::new(reader));
+        let chunks = lzf::LzfReader::new(SharedReader::new(inner.clone()));
+        LzfReader { inner, chunks }
+    }
+}
+
+impl<R: BufRead> Read for LzfReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            let bytes_read = self.chunks.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() || self.inner.borrow_mut().fill_buf()?.is_empty() {
+                return Ok(bytes_read);
+            }
+        }
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index 7de53f6..f4929ba 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,5 +1,7 @@
 mod crc32;
 pub mod decompress;
 mod lz4;
+mod lzf;
+mod shared_reader;
 pub mod zip;
 mod zst;
diff --git a/src/decompress/shared_reader.rs b/src/decompress/shared_reader.rs
new file mode 100644
index 0000000..683a540
--- /dev/null
+++ b/src/decompress/shared_reader.rs
@@ -0,0 +1,18 @@
+use std::cell::RefCell;
+use std::io::{self, Read};
+use std::rc::Rc;
+
+/// lets us keep an eye on a reader that has been given away to a decoder
+pub struct SharedReader<R>(Rc<RefCell<R>>);
+
+impl<R> SharedReader<R> {
+    pub fn new(reader: Rc<RefCell<R>>) -> SharedReader<R> {
+        SharedReader(reader)
+    }
+}
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
-- 
2.43.0


From ea7ed72d84e894c7b96b2ab50350e31fa81b424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:08 +0000
Subject: [PATCH 27/29] fix: arguments that are not valid UTF-8 are refused
 instead of panicking

---
 src/cli_app.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 4c72024..aaec41e 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -1,5 +1,5 @@
 use clap::crate_version;
-use clap::{App, Arg};
+use clap::{App, AppSettings, Arg};
 
 pub struct CliApp;
 
@@ -8,6 +8,7 @@ impl CliApp {
         let app = App::new("chopper")
             .version(crate_version!())
             .about("chopper is a simple streaming time series tool")
+            .setting(AppSettings::StrictUtf8)
             .arg(
                 Arg::with_name("input")
                     .help("sets the input files to use; \nif missing, stdin will be used")
-- 
2.43.0


From eeb47a15160c2acda431eb9c28bc37546c734cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:10 +0000
Subject: [PATCH 28/29] fix: the documented default of --csv-in-ts-fmt-time was
 refused

---
 src/chopper_cli.rs | 5 +++--
 src/cli_app.rs     | 1 -
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index 5a4cc4c..ec7047f 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -177,8 +177,9 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
             Some(fmt) => TimestampFmtConfig::Explicit(fmt.to_string()),
         },
         Some(date_fmt) => {
-            // we should always have time format if we have date format
-            let time_fmt = matches.value_of("csv_in_ts_fmt_time").unwrap();
+            let time_fmt = matches
+                .value_of("csv_in_ts_fmt_time")
+                .unwrap_or("%H:%M:%S");
             TimestampFmtConfig::DateTimeExplicit(date_fmt.to_string(), time_fmt.to_string())
         }
     };
diff --git a/src/cli_app.rs b/src/cli_app.rs
index aaec41e..76cfef0 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -191,7 +191,6 @@ impl CliApp {
                     .help("csv input only: specify the split timestamp date-only column format")
                     .takes_value(true)
                     .value_name("arg")
-                    .requires("csv_in_ts_fmt_time")
                     .conflicts_with_all(&["csv_in_ts_col", "csv_in_ts_fmt"]),
             )
             .arg(
-- 
2.43.0


From e9c495d1fd8b356a9cdcd51472ccf56b7e3cceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:19 +0000
Subject: [PATCH 29/29] fix: http bodies shorter than announced were taken as
 complete, and errors with an unreadable body did not name the status

---
 src/transport/streaming/http.rs | 40 ++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/transport/streaming/http.rs b/src/transport/streaming/http.rs
index 25de02c..da28e03 100644
--- a/src/transport/streaming/http.rs
+++ b/src/transport/streaming/http.rs
@@ -6,6 +6,26 @@ use crate::transport::streaming::streaming_transport::StreamingTransport;
 #[derive(Clone)]
 pub struct HttpTransport;
 
+/// A response body that is an error if it ends before its announced length.
+struct BodyReader<R> {
+    reader: R,
+    remaining: u64,
+}
+
+impl<R: io::Read> io::Read for BodyReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let n = self.reader.read(buf)?;
+        self.remaining = self.remaining.saturating_sub(n as u64);
+        if n == 0 && !buf.is_empty() && self.remaining > 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "http response body is cut short",
+            ));
+        }
+        Ok(n)
+    }
+}
+
 impl StreamingTransport for HttpTransport {
     fn can_open(&self, path: &Path) -> bool {
         path.starts_with("http://") || path.starts_with("https://")
@@ -15,15 +35,29 @@ impl StreamingTransport for HttpTransport {
         let response = ureq::get(path.to_str().unwrap()).call();
 
         if response.ok() {
-            Ok(Box::new(response.into_reader()))
+            // the length does not apply to responses without a body and to chunked ones
+            let remaining = match response.header("content-length") {
+                Some(length) if response.status() != 204 && !response.has("transfer-encoding") => {
+                    length.parse().unwrap_or(0)
+                }
+                _ => 0,
+            };
+
+            Ok(Box::new(BodyReader {
+                reader: response.into_reader(),
+                remaining,
+            }))
         } else {
+            let status = response.status();
             Err(io::Error::new(
                 io::ErrorKind::Other,
                 format!(
                     "http error for {} - status: {}; string: {}",
                     path.to_str().unwrap(),
-                    response.status(),
-                    response.into_string()?
+                    status,
+                    response
+                        .into_string()
+                        .unwrap_or_else(|e| format!("<unreadable: {}>", e))
                 ),
             ))
         }
-- 
2.43.0

