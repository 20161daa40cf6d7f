From cf4ba51907a170d25babbb59250a5216e87b9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:51 +0000
Subject: [PATCH 01/10] fix: keep the running digest when the total hash is
 requested

Progress asks the writer for the total hash and then finishes the writer,
which asked for the hash again. For hashes that are reset on finalization
the footer written to the index was the hash of an empty input.
---
 src/v1/threaded_writer.rs | 3 ++-
 src/v1/writer.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 61b479e..ee726c3 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -157,7 +157,8 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     }
     fn get_hash(&mut self) -> Result<Self::TotalHash, Error> {
         self.wait_queue()?;
-        Ok(self.file.digest.total_hash())
+        // Don't reset the running digest: this can be called more than once
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 484a78d..aaadd65 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -77,7 +77,8 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
         Ok(())
     }
     fn get_hash(&mut self) -> Result<H::Output, Error> {
-        Ok(self.file.digest.total_hash())
+        // Don't reset the running digest: this can be called more than once
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
-- 
2.43.0


From 1c04ef505c7769353f3cc8134e9b0b42dc664d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:51 +0000
Subject: [PATCH 02/10] fix: emit a complete footer line for blake3

The footer was written by a single write() call, which may accept only part
of the data, and had no newline, so the emitted index was not parseable.
---
 src/v1/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index a111027..cd4386c 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -157,7 +157,7 @@ impl HashTrait for blake3::Hasher {
         self.update(data);
     }
     fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
-        out.write(self.finalize().to_hex().as_str().as_bytes()).map(|_| ())
+        writeln!(out, "{}", self.finalize().to_hex().as_str())
     }
 }
 
-- 
2.43.0


From c8ab7fc576310928f69e4a144c0b08ef21e8b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:51 +0000
Subject: [PATCH 03/10] fix: don't add a hash of an empty block in
 Hashes::hash_file

A file whose size is a multiple of the block size (including an empty file)
got one hash more than the ceil(size / block_size) required by the format.
---
 src/v1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd330cb..424a15f 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -435,6 +435,9 @@ impl Hashes {
         let mut size = 0;
         loop {
             let (bs, hash) = h.hash_and_size(&mut f, block_size)?;
+            if bs == 0 {
+                break;
+            }
             buf.extend(hash.result());
             size += bs;
             if bs < block_size {
-- 
2.43.0


From 4b1fa4e333595a78d61e8025ba7069eaae22b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:51 +0000
Subject: [PATCH 04/10] fix: don't panic on hostile sizes in an index

A zero block size in the header caused a division by zero, a huge file size
overflowed the computation of the number of hashes and made the parser
preallocate an arbitrary amount of memory.
---
 src/v1/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 424a15f..bf60a4f 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -295,9 +295,11 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => u64::from_str_radix(v, 10)
-                            .map_err(|_| ParseRowError::InvalidBlockSize(
-                                v.to_string()))?,
+                        Some(v) => match u64::from_str_radix(v, 10) {
+                            Ok(block_size) if block_size > 0 => block_size,
+                            _ => return Err(ParseRowError::InvalidBlockSize(
+                                v.to_string())),
+                        },
                         None => return Err(ParseRowError::MissingBlockSize),
                     }
                 },
@@ -524,7 +526,10 @@ impl Entry {
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-                let hashes_num = ((file_size + block_size - 1) / block_size) as usize;
+                let mut hashes_num = (file_size / block_size) as usize;
+                if file_size % block_size != 0 {
+                    hashes_num += 1;
+                }
                 let (hashes_data, row) = parse_hashes(row, hash_type, hashes_num)?;
                 let hashes = Hashes::new(hashes_data, hash_type, block_size);
                 (Entry::File {
@@ -823,7 +828,10 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     let hash_len = digest_len * 2;
 
     let mut i = 0;
-    let mut buf = Vec::with_capacity(hashes_num * digest_len);
+    // The number of hashes is not trustworthy until we have seen them all
+    let max_hashes = data.len() / hash_len + 1;
+    let mut buf = Vec::with_capacity(
+        std::cmp::min(hashes_num, max_hashes) * digest_len);
     loop {
         if i == hashes_num {
             break;
-- 
2.43.0


From 3d0c6625001612a9abbd6c0f5d32621dc29146be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 05/10] fix: don't reuse a broken row after an error in
 EntryIterator::advance

When reading of a line failed in the middle the part already read was parsed
as if it was a complete line by the following call, and an invalid row was
reported forever. Also don't count the row kept by advance twice in the line
numbers of errors.
---
 src/v1/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bf60a4f..250a8fa 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -665,8 +665,8 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         if self.exhausted {
             return Ok(None);
         }
-        self.current_row_num += 1;
         if self.current_row.is_empty() {
+            self.current_row_num += 1;
             read_line(self.reader.by_ref(), &mut self.current_row)
                 .context(self.current_row_num)?;
         }
@@ -725,7 +725,11 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                     }
                 },
                 Ok(None) => return None,
-                Err(e) => return Some(Err(e)),
+                Err(e) => {
+                    // don't parse a broken or a partially read row again
+                    self.current_row.clear();
+                    return Some(Err(e));
+                },
             }
         }
     }
-- 
2.43.0


From 9bca40b78c96ebf632f91dafe2e0daea754f1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 06/10] fix: reject file rows that don't name a file in the
 current directory

A name like `/etc/passwd`, `../x` or a file row before the first directory
row produced an entry outside of the current directory, and comparing
some of them (as merging and advance do) panicked.
---
 src/v1/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 250a8fa..be32d3c 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -522,6 +522,14 @@ impl Entry {
         } else if row.starts_with(b"  ") {
             let row = &row[2..];
             let (path, row) = parse_path(row)?;
+            if !is_file_name(&path) {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Invalid file name: {:?}", path)));
+            }
+            if !current_dir.is_absolute() {
+                return Err(ParseRowError::InvalidLine(
+                    format!("File entry before the first directory")));
+            }
             let path = current_dir.join(&path);
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
@@ -761,6 +769,11 @@ fn read_line<R: BufRead>(reader: &mut R, mut buf: &mut Vec<u8>)
     Ok(())
 }
 
+fn is_file_name(path: &Path) -> bool {
+    let name = path.as_os_str().as_bytes();
+    !name.is_empty() && name != b"." && name != b".." && !name.contains(&b'/')
+}
+
 fn parse_path<'a>(data: &'a [u8])
     -> Result<(Cow<'_, Path>, &'a [u8]), ParseRowError>
 {
-- 
2.43.0


From 444db38f142fcda53b1273fba71734339af17943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 07/10] fix: don't rely on a single read call in get_hash

A reader is allowed to return less data than requested at any time, so
a valid index could be reported as an invalid one.
---
 src/read.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index c993da0..b23dbee 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -18,9 +18,9 @@ fn hex_to_digit(v: u8) -> Option<u8> {
 /// checksum of the file or as identifier if this image/directory
 pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     let einval = io::ErrorKind::InvalidData;
-    let mut signature = [0u8; 32];
-    f.read(&mut signature)?;
-    if &signature[..16] != b"DIRSIGNATURE.v1 " {
+    let mut signature = Vec::with_capacity(32);
+    f.by_ref().take(32).read_to_end(&mut signature)?;
+    if signature.len() < 32 || &signature[..16] != b"DIRSIGNATURE.v1 " {
         return Err(einval.into());
     }
     let hash = signature[16..].iter().position(|&x| x == b' ')
@@ -30,9 +30,9 @@ pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
 
     let nbytes = hash.output_bytes()*2+2;
     f.seek(SeekFrom::End(- (nbytes as i64)))?;
-    let mut buf = [0u8; 100];
-    assert!(buf.len() >= nbytes);
-    if f.read(&mut buf)? != nbytes {
+    let mut buf = Vec::with_capacity(nbytes);
+    f.by_ref().take(nbytes as u64).read_to_end(&mut buf)?;
+    if buf.len() != nbytes {
         return Err(io::ErrorKind::UnexpectedEof.into());
     }
     if buf[0] != b'\n' || buf[nbytes-1] != b'\n' {
-- 
2.43.0


From e1289a3da47dc288c73148daf43ec055a26eb704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:32 +0000
Subject: [PATCH 08/10] fix: report errors of writing the buffered tail of an
 index

With a buffered writer (as recommended, and as the index tool does) the data
still in the buffer at the end of a scan was written when the buffer was
dropped, where an error is ignored: a truncated index was reported as a
success. Flush the writer at the end of the scan.
---
 src/v1/threaded_writer.rs | 3 ++-
 src/v1/writer.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index ee726c3..2869593 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -163,7 +163,8 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)?;
+        self.file.file.flush().map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index aaadd65..da8313c 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -83,7 +83,8 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)?;
+        self.file.file.flush().map_err(EWrite)
     }
 }
 
-- 
2.43.0


From 685a7af8ea2125defbb0dba235d21ac9afcb0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 09/10] fix: don't return the rest of a partially read row as
 an entry

After a read error in the middle of a row, or after extra data is found
behind the footer, the iterator continued from the middle of a row and
could return its rest as an entry.
---
 src/v1/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index be32d3c..37f46a7 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -649,6 +649,8 @@ pub struct EntryIterator<'a, R: BufRead> {
     current_row_num: usize,
     current_dir: PathBuf,
     exhausted: bool,
+    // part of a row is already consumed, so we can't find the next one
+    lost: bool,
 }
 
 impl<'a, R: BufRead> EntryIterator<'a, R> {
@@ -663,6 +665,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             current_row_num: 1,
             current_dir: PathBuf::new(),
             exhausted: false,
+            lost: false,
         }
     }
 
@@ -673,10 +676,17 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         if self.exhausted {
             return Ok(None);
         }
+        if self.lost {
+            return Err(ErrorEnum::Parse(
+                ParseRowError::InvalidLine(
+                    format!("Can't continue after a partially read row")),
+                self.current_row_num));
+        }
         if self.current_row.is_empty() {
             self.current_row_num += 1;
-            read_line(self.reader.by_ref(), &mut self.current_row)
-                .context(self.current_row_num)?;
+            let res = read_line(self.reader.by_ref(), &mut self.current_row);
+            self.lost = res.is_err() && !self.current_row.is_empty();
+            res.context(self.current_row_num)?;
         }
         let row = &self.current_row[..];
         let entry = Entry::parse(
@@ -688,6 +698,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                     .context(self.current_row_num)?;
                 let mut test_buf = [0; 1];
                 if self.reader.read(&mut test_buf)? != 0 {
+                    self.lost = true;
                     return Err(ErrorEnum::Parse(
                         ParseRowError::InvalidLine(
                             format!("Found extra lines after the footer")),
-- 
2.43.0


From 8f69386c0d2e684cd0ac418d4d3c809e5ddadc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:49 +0000
Subject: [PATCH 10/10] fix: check_file reports a file shorter than its hashes

A stored hash of an empty block past the end of the file was accepted: the
file was reported as matching although it has fewer blocks than hashes.
---
 src/v1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 37f46a7..3a4ed0a 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -463,8 +463,8 @@ impl Hashes {
         -> io::Result<bool>
     {
         for orig_hash in self.iter() {
-            let hash = h.hash_file(&mut f, self.block_size)?;
-            if orig_hash != hash.result() {
+            let (bytes, hash) = h.hash_and_size(&mut f, self.block_size)?;
+            if bytes == 0 || orig_hash != hash.result() {
                 return Ok(false);
             }
         }
-- 
2.43.0

