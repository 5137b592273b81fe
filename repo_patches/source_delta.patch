From cd1563eeac4c1cde36cf5f181d51867bd6abc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 01/27] fix: accept only hexadecimal digits in pkt-line headers

The range patterns were inclusive, so ':' and 'g' were taken as digits, and a
header such as 'fggg' overflowed the sum and panicked in debug builds.
---
 scutiger-core/src/pktline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 21ef9b9..05a102d 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -109,8 +109,8 @@ impl<R: io::Read> Reader<R> {
             .enumerate()
             .map(|(i, x)| {
                 let v = match *x {
-                    b'0'...b':' => x - b'0',
-                    b'a'...b'g' => x - b'a' + 10,
+                    b'0'..=b'9' => x - b'0',
+                    b'a'..=b'f' => x - b'a' + 10,
                     _ => return Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
                 };
                 Ok((v as u16) << ((3 - i) * 4))
-- 
2.43.0


From 24ea0836ce385286b3e47428a30dffe32275cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 02/27] fix: reject over-long pkt-lines in read_packet as in
 the stream reader

---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 05a102d..477e559 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -95,6 +95,9 @@ impl<R: io::Read> Reader<R> {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
             2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
+            n if n > Self::MAX_PACKET_LEN + 4 => {
+                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
+            }
             _ => {
                 let mut v = vec![0u8; size - 4];
                 self.rdr.read_exact(&mut v)?;
-- 
2.43.0


From 55850ee21e4aad28c332896fc5e2f03758e5a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 03/27] fix: require the packet that ends a section of a
 request

A request cut off by the end of the input was executed as if its final flush
packet had arrived, so a truncated lock or unlock took effect.  A flush packet
in place of a delimiter was taken for an empty argument, and the requests that
followed were swallowed as further arguments.
---
 scutiger-lfs/src/processor.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 220acaf..2e3d6d7 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -108,14 +108,15 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
     }
 
     pub fn read_to_type(&mut self, typ: pktline::PacketType) -> Result<Vec<Bytes>, Error> {
-        self.rdr
-            .iter()
-            .take_while(|pkt| match pkt {
-                Ok(pkt) if pkt.packet_type() == typ => false,
-                _ => true,
-            })
-            .map(|pkt| pkt.map(|p| p.data().unwrap_or(b"").into()))
-            .collect()
+        let mut items = vec![];
+        loop {
+            let pkt = self.rdr.read_packet()?;
+            match pkt.data() {
+                Some(data) => items.push(data.into()),
+                None if pkt.packet_type() == typ => return Ok(items),
+                None => return Err(Error::new_simple(ErrorKind::UnexpectedPacket)),
+            }
+        }
     }
 
     pub fn read_to_delim(&mut self) -> Result<Vec<Bytes>, Error> {
-- 
2.43.0


From 2752c5973583f797b9bc0a23438a2c68382387de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 04/27] fix: never take the rest of a refused request for
 another request

---
 scutiger-core/src/pktline.rs  | 37 +++++++++++++++++++++++++++++++++++
 scutiger-lfs/src/processor.rs | 11 +++++++++++
 2 files changed, 48 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 477e559..e8fb67f 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -55,6 +55,10 @@ pub struct Reader<R: io::Read> {
     buf: [u8; 65536],
     off: usize,
     len: usize,
+    /// Whether the last packet read was a flush packet.
+    at_flush: bool,
+    /// Whether a malformed header was read, such that the packet boundaries are lost.
+    broken: bool,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -66,6 +70,8 @@ impl<R: io::Read> Reader<R> {
             buf: [0u8; 65536],
             off: 0,
             len: 0,
+            at_flush: false,
+            broken: false,
         }
     }
 
@@ -88,6 +94,33 @@ impl<R: io::Read> Reader<R> {
     }
 
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
+        if self.broken {
+            return Err(Error::new_simple(ErrorKind::BadPktlineHeader));
+        }
+        let pkt = self.read_any_packet();
+        self.note(pkt.as_ref().map(|p| p.packet_type()));
+        pkt
+    }
+
+    /// Read and discard packets up to and including the next flush packet, unless the last packet
+    /// read was one.
+    pub fn skip_to_flush(&mut self) -> Result<(), Error> {
+        self.off = 0;
+        self.len = 0;
+        while !self.at_flush {
+            self.read_packet()?;
+        }
+        Ok(())
+    }
+
+    fn note(&mut self, r: Result<PacketType, &Error>) {
+        self.at_flush = r == Ok(PacketType::Flush);
+        if let Err(e) = r {
+            self.broken |= e.kind() == ErrorKind::BadPktlineHeader;
+        }
+    }
+
+    fn read_any_packet(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
         self.rdr.read_exact(&mut hdr)?;
         let size = Self::parse_header(hdr)? as usize;
@@ -141,11 +174,15 @@ impl<R: io::Read> io::Read for Reader<R> {
             return Ok(n);
         }
         loop {
+            if self.broken {
+                return Err(Error::new_simple(ErrorKind::BadPktlineHeader).into());
+            }
             let (r, copy) = if buf.len() >= Self::MAX_PACKET_LEN {
                 (Self::read_one(&mut self.rdr, buf), false)
             } else {
                 (Self::read_one(&mut self.rdr, &mut self.buf), true)
             };
+            self.note(r.as_ref().copied());
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
                 (Ok(PacketType::Flush), _) => return Ok(0),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 2e3d6d7..3006e7c 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -127,6 +127,14 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
         self.read_to_type(pktline::PacketType::Flush)
     }
 
+    /// Discard what has not been read of the current request, including its flush packet, so that
+    /// it cannot be mistaken for another request.
+    ///
+    /// If that fails, reading the next command fails as well, so any error is reported then.
+    pub fn skip_request(&mut self) {
+        let _ = self.rdr.skip_to_flush();
+    }
+
     pub fn send(&mut self, msg: &[u8]) -> Result<(), Error> {
         self.wrtr.write_all(msg)?;
         Ok(())
@@ -666,6 +674,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             };
             let msgs: Vec<_> = match pkt.data() {
                 Some(b"") => {
+                    self.handler.skip_request();
                     self.handler.send_error(400, "no command provided")?;
                     continue;
                 }
@@ -678,6 +687,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     bs.split(|&b| b == b' ').collect()
                 }
                 None => {
+                    self.handler.skip_request();
                     self.handler.send_error(400, "unknown command")?;
                     continue;
                 }
@@ -703,6 +713,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 }
                 (_, _, _) => self.error(400, "unknown command"),
             };
+            self.handler.skip_request();
             match resp {
                 Ok(st) => self.handler.send_status(st),
                 Err(e) => match e.kind() {
-- 
2.43.0


From 5cbd3dc33885c9f4e646dd32e2e0bafafcf5e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 05/27] fix: refuse requests that cannot be parsed as client
 errors

---
 scutiger-lfs/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 3006e7c..b3ab2f7 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -722,6 +722,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     | ErrorKind::UnexpectedPacket
                     | ErrorKind::InvalidLFSOid
                     | ErrorKind::InvalidInteger
+                    | ErrorKind::ParseError
                     | ErrorKind::MissingData
                     | ErrorKind::ExtraData
                     | ErrorKind::CorruptData
-- 
2.43.0


From 1c9d5b86386dd462963225f870b0f002f6c5602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 06/27] fix: list no more locks than the limit and none on two
 pages

---
 scutiger-lfs/src/processor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index b3ab2f7..c9ae134 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -623,8 +623,11 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .take(limit + 1)
             .collect();
         let items = r?;
-        let lock_specs: Result<Vec<_>, _> =
-            items.iter().map(|l| l.as_lock_spec(use_owner_id)).collect();
+        let lock_specs: Result<Vec<_>, _> = items
+            .iter()
+            .take(limit)
+            .map(|l| l.as_lock_spec(use_owner_id))
+            .collect();
         let lock_specs = lock_specs?.iter().flatten().cloned().collect();
         let next_cursor: Vec<Bytes> = if items.len() == limit + 1 {
             vec![format!("next-cursor={}\n", items[limit].id()).into()]
-- 
2.43.0


From eba745d79f904409eb21b52fd9bce19f0da5faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 07/27] fix: retry taking a lock that vanishes instead of
 panicking

---
 scutiger-lfs/src/processor.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index c9ae134..48c0815 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -547,16 +547,13 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             }
         };
         let lock_backend = self.backend.lock_backend();
-        let mut retried = false;
-        while !retried {
+        for _ in 0..2 {
             let (ok, lock) = match lock_backend.create(path) {
                 Ok(l) => (true, l),
                 Err(e) if e.kind() == ErrorKind::Conflict => match lock_backend.from_path(path) {
                     Ok(Some(l)) => (false, l),
-                    Ok(None) => {
-                        retried = true;
-                        continue;
-                    }
+                    // The lock is already gone again, so try once more.
+                    Ok(None) => continue,
                     Err(e) => return Err(e),
                 },
                 Err(e) => return Err(e),
@@ -571,7 +568,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             };
         }
-        unreachable!()
+        Err(Error::new_simple(ErrorKind::Conflict))
     }
 
     fn list_locks_for_path(
-- 
2.43.0


From 9e2c479b500cac51a5fd98fcb72745ab9c3899e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 08/27] fix: use a temporary file of its own for every lock
 attempt

---
 scutiger-lfs/src/backend/local.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9ec1dbb..6897b18 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -154,8 +154,13 @@ struct LockFile {
 
 impl LockFile {
     fn new(path: &Path) -> Result<LockFile, Error> {
+        // Every attempt has its own temporary file, so that one which is left over or belongs to
+        // another process is neither mistaken for a held lock nor removed or published by us.
+        let nanos = SystemTime::now()
+            .duration_since(SystemTime::UNIX_EPOCH)
+            .map_or(0, |d| d.as_nanos());
         let mut temp = path.to_owned();
-        temp.set_extension("lock");
+        temp.set_extension(format!("{}.{}.lock", std::process::id(), nanos));
         Ok(LockFile {
             path: path.to_owned(),
             temp,
-- 
2.43.0


From 92d7caf0ed5eb0e8d5e6102378ed099ced4397e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 09/27] fix: treat anything but a lock id as an unknown lock

---
 scutiger-lfs/src/backend/local.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 6897b18..9795d7d 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -368,6 +368,11 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
     }
 
     fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
+        // A lock id has the same form as an object id.  Anything else is not a lock, be it a
+        // temporary file or a path that leads out of the directory.
+        if !Oid::valid(id.as_bytes()) {
+            return Ok(None);
+        }
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
-- 
2.43.0


From e57516f03fe9bad1885705a20cdc3bd2f0e8a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 10/27] fix: report the creation time that was recorded in the
 lock

---
 scutiger-lfs/src/backend/local.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9795d7d..8a04ffa 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -334,7 +334,8 @@ impl<'a> LocalLockBackend<'a> {
 impl<'a> LockBackend for LocalLockBackend<'a> {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
         let id = LocalBackendLock::hash_for(path);
-        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, self.timestamp()).into();
+        let time = self.timestamp();
+        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, time).into();
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
@@ -345,7 +346,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-            time: self.timestamp(),
+            time,
             ownername: user,
         }))
     }
-- 
2.43.0


From 631ad865317acccb6510b3c3aaa70b707345ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 11/27] fix: take a lock's owner from the lock that is reported

---
 scutiger-lfs/src/backend/local.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 8a04ffa..b1ea157 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -316,14 +316,14 @@ impl<'a> LocalLockBackend<'a> {
     }
 
     #[cfg(windows)]
-    fn user_for_file(path: &Path) -> Result<String, Error> {
+    fn user_for_file(_st: io::Result<fs::Metadata>) -> Result<String, Error> {
         Ok("unknown".into())
     }
 
     #[cfg(unix)]
-    fn user_for_file(path: &Path) -> Result<String, Error> {
+    fn user_for_file(st: io::Result<fs::Metadata>) -> Result<String, Error> {
         use std::os::unix::fs::MetadataExt;
-        let st = fs::metadata(path)?;
+        let st = st?;
         match passwd::Passwd::from_uid(st.uid()) {
             Some(pwd) => Ok(pwd.name),
             None => Ok(format!("uid {}", st.uid())),
@@ -341,8 +341,10 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         filename.push(id);
         let lock = LockFile::new(&filename)?;
         lock.write(&b)?;
+        // Once it is published, another client may replace the lock.
+        let user =
+            Self::user_for_file(fs::metadata(&lock.temp)).unwrap_or_else(|_| "unknown".into());
         lock.persist()?;
-        let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
@@ -383,7 +385,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         };
         let mut v = Vec::new();
         f.read_to_end(&mut v)?;
-        let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
+        let user = Self::user_for_file(f.metadata()).unwrap_or_else(|_| "unknown".into());
         let (time, parsed_path) = match LocalBackendLock::parse(v) {
             Some(x) => x,
             None => {
-- 
2.43.0


From 6e151bc91f265b26c6e8bd182d1caeb6e07df3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 12/27] fix: treat a lock with an impossible time as corrupt

---
 scutiger-lfs/src/backend/local.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index b1ea157..23cf086 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -230,6 +230,8 @@ impl LocalBackendLock {
         }
         let s: String = String::from_utf8(v[1].clone()).ok()?;
         let time = s.parse().ok()?;
+        // A time that cannot be represented cannot be reported.
+        Utc.timestamp_opt(time, 0).single()?;
         Some((time, v[2].clone().into()))
     }
 
-- 
2.43.0


From b53b691eceff7ff1ccd4e40bd7d4856ebc1dc336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 13/27] fix: never take a corrupt lock file for the lock of
 another path

---
 scutiger-lfs/src/backend/local.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 23cf086..d2628c9 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -389,8 +389,8 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         f.read_to_end(&mut v)?;
         let user = Self::user_for_file(f.metadata()).unwrap_or_else(|_| "unknown".into());
         let (time, parsed_path) = match LocalBackendLock::parse(v) {
-            Some(x) => x,
-            None => {
+            Some((time, path)) if LocalBackendLock::hash_for(&path) == id => (time, path),
+            _ => {
                 return Err(Error::from_message(
                     ErrorKind::CorruptData,
                     "invalid parsed lock",
-- 
2.43.0


From 8150525ecbfb1d4ace0d2e4308504a7757ead03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 14/27] fix: set an object's permissions before it becomes
 visible

---
 scutiger-lfs/src/backend/local.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index d2628c9..f7b180d 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -94,14 +94,12 @@ impl<'a> Backend for LocalBackend<'a> {
         if let Some(parent) = dest_path.parent() {
             fs::create_dir_all(parent)?;
         }
-        state
-            .tempfile
-            .take()
-            .unwrap()
-            .into_temp_path()
+        let temp_path = state.tempfile.take().unwrap().into_temp_path();
+        // The object must not become visible before it has its final permissions.
+        self.fix_permissions(&temp_path)?;
+        temp_path
             .persist(&dest_path)
             .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
-        self.fix_permissions(&dest_path)?;
         Ok(())
     }
 
-- 
2.43.0


From 72a4a073f2af9dacea3d872f9dade4c072a6a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 15/27] fix: answer unlocking an inaccessible lock with 403

---
 scutiger-lfs/src/processor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 48c0815..739b98e 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -661,6 +661,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 }
             }
             Ok(None) => self.error(404, "not found"),
+            Err(e) if e.io_kind() == io::ErrorKind::PermissionDenied => {
+                self.error(403, "forbidden")
+            }
             Err(e) => Err(e),
         }
     }
-- 
2.43.0


From 1fa4eddb98cafdc5f18e19e0f9400c56a14068ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 16/27] fix: remove the temporary file before answering a
 failed upload

---
 scutiger-lfs/src/backend/local.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index f7b180d..9d36227 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -99,7 +99,8 @@ impl<'a> Backend for LocalBackend<'a> {
         self.fix_permissions(&temp_path)?;
         temp_path
             .persist(&dest_path)
-            .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
+            // Drop the temporary file now and not only with the error.
+            .map_err(|e| Error::new(ErrorKind::IOError, Some(e.error)))?;
         Ok(())
     }
 
-- 
2.43.0


From d85a78ae29abe6b1ac152513f11c600d3dbea95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 17/27] fix: honour an octal core.sharedRepository

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4465818..ae95a87 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -99,12 +99,13 @@ impl<'p> Program<'p> {
         let sval = config.get_string("core.sharedrepository");
         let tval = sval.as_ref().map(|s| s.as_str());
         let perms = match (config.get_bool("core.sharedrepository"), tval) {
+            // A file mode is an octal number, which is otherwise taken for a true boolean.
+            (_, Ok(x)) if u16::from_str_radix(x, 8).map_or(false, |v| v & 0o600 == 0o600) => {
+                Some(u16::from_str_radix(x, 8).unwrap())
+            }
             (Ok(true), _) | (_, Ok("group")) => Some(0o660),
             (Ok(false), _) | (_, Ok("umask")) => None,
             (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-            (_, Ok(x)) if u16::from_str_radix(x, 8).is_ok() => {
-                Some(u16::from_str_radix(x, 8).unwrap())
-            }
             (_, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
             (_, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
             _ => None,
-- 
2.43.0


From 311050fcbb8205e4c56b876d47d26a5d901263c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 18/27] fix: search exactly the first line for git at --summary

---
 scutiger-bin/src/bin/git-at.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 4d3258b..15125aa 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -64,8 +64,8 @@ impl<'a> Program<'a> {
     /// one occurred. If the Error is due to no revision matching, the kind of the error will be
     /// `ErrorKind::NoSuchRevision`.
     fn run(&self) -> Result<Oid, Error> {
-        let regex = self.pattern(self.text)?;
-        let fixup_regex = self.pattern("\\A\\s*(?:fixup|squash)!")?;
+        let regex = Regex::new(self.text)?;
+        let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
         let head = self.repo.revparse_single(self.head)?;
         let mut walker = self.repo.revwalk()?;
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
@@ -76,7 +76,12 @@ impl<'a> Program<'a> {
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
             }
-            if regex.is_match(message)? {
+            let text = if self.summary {
+                message.split(|&b| b == b'\n').next().unwrap_or(message)
+            } else {
+                message
+            };
+            if regex.is_match(text)? {
                 return Ok(commit.id());
             }
         }
@@ -116,13 +121,6 @@ impl<'a> Program<'a> {
             }
         }
     }
-
-    fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
-        if self.summary {
-            return Ok(Regex::new(&format!("\\A[^\n]*{}", pattern))?);
-        }
-        Ok(Regex::new(pattern)?)
-    }
 }
 
 fn parse_options<'a>() -> App<'a, 'a> {
-- 
2.43.0


From 65e855e92028d518b4f958206181a1e333265f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 19/27] fix: list recent refs beyond a branch that no longer
 exists

---
 scutiger-bin/src/bin/git-recent-refs.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 6db2085..f3c7ddc 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -73,14 +73,19 @@ impl<'p> Program<'p> {
         match self.kind {
             SortKind::Visited => {
                 let chain: Vec<String> = vec!["HEAD".to_string()];
-                let range = 1..;
+                let visits = repo.reflog("HEAD").map_or(0, |log| {
+                    log.iter()
+                        .filter_map(|e| e.message_bytes().map(<[u8]>::to_vec))
+                        .filter(|m| m.starts_with(b"checkout: moving from "))
+                        .count()
+                });
+                let range = 1..=visits;
                 let iter = chain
                     .into_iter()
                     .chain(range.map(|i| format!("@{{-{}}}", i)));
                 Ok(Box::new(
-                    iter.map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok()))
-                        .take_while(Option::is_some)
-                        .map(Option::unwrap),
+                    // What no longer exists is left out.
+                    iter.filter_map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok())),
                 ))
             }
             SortKind::Committed => {
-- 
2.43.0


From ee44663d820232a0b9c17258b429300d8c8898b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 20/27] fix: lose no data when reading into an empty buffer

---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index e8fb67f..6566fb7 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -162,6 +162,9 @@ impl<R: io::Read> Reader<R> {
 
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let n = cmp::min(self.len - self.off, buf.len());
         if n > 0 {
             buf[0..n].copy_from_slice(&self.buf[self.off..self.off + n]);
-- 
2.43.0


From 9ad507c4ea780e98f9ae7a98fdeb5d7934648aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 21/27] fix: go on with a lock listing at the cursor, not
 before it

---
 scutiger-lfs/src/processor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 739b98e..c476400 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -580,7 +580,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         match (self.backend.lock_backend().from_path(path), cursor) {
             (Err(e), _) => Err(e),
             (Ok(None), _) => self.error(404, "not found"),
-            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id => self.error(404, "not found"),
+            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id.as_ref() => {
+                self.error(404, "not found")
+            }
             (Ok(Some(l)), _) => l.as_lock_spec(use_owner_id).map(Status::new_success),
         }
     }
@@ -614,7 +616,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .iter()
             .skip_while(|item| match (item, cursor) {
                 (Err(_), _) => false,
-                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor,
+                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor.as_ref(),
                 (Ok(_), None) => false,
             })
             .take(limit + 1)
-- 
2.43.0


From dcb006b5214bc6f14020540435ef9476d2183ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 22/27] fix: store no object before the flush packet that ends
 its upload

---
 scutiger-core/src/pktline.rs  | 5 +++++
 scutiger-lfs/src/processor.rs | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 6566fb7..e74ceb1 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -102,6 +102,11 @@ impl<R: io::Read> Reader<R> {
         pkt
     }
 
+    /// Whether the last packet read was a flush packet.
+    pub fn at_flush(&self) -> bool {
+        self.at_flush
+    }
+
     /// Read and discard packets up to and including the next flush packet, unless the last packet
     /// read was one.
     pub fn skip_to_flush(&mut self) -> Result<(), Error> {
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index c476400..d0e1d74 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -502,6 +502,13 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 format!("expected oid {}, got {}", oid, actual_oid),
             ));
         }
+        // The data may also have been ended by a delimiter, in which case the request is not over.
+        if !self.handler.rdr.at_flush() {
+            return Err(Error::from_message(
+                ErrorKind::ParseError,
+                "expected flush after object data",
+            ));
+        }
         self.backend.finish_upload(state)?;
         Ok(Status::success())
     }
-- 
2.43.0


From ef9665294cd0074406fa6c30a007116df43f169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 23/27] fix: report an unreadable history as an error, not as
 no match

---
 scutiger-bin/src/bin/git-at.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 15125aa..3a7cf9c 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -71,7 +71,11 @@ impl<'a> Program<'a> {
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
         walker.push(head.id())?;
         for rev in walker {
-            let commit = self.repo.find_commit(rev?)?;
+            // A commit missing from the history means that it cannot be read, not that the
+            // revision asked for does not exist.
+            let commit = rev
+                .and_then(|oid| self.repo.find_commit(oid))
+                .map_err(|e| Error::new(ErrorKind::GitError, Some(e)))?;
             let message = commit.message_bytes();
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
-- 
2.43.0


From 031bfcfb2b4956c021b7edb6474b1297aba574e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:50 +0000
Subject: [PATCH 24/27] fix: take the branches left from the checkouts in the
 reflog

---
 scutiger-bin/src/bin/git-recent-refs.rs | 39 ++++++++++++++++++-------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index f3c7ddc..5721f2b 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -17,7 +17,7 @@ mod pager;
 pub mod fixtures;
 
 use clap::{App, AppSettings, Arg, ArgMatches};
-use git2::{Object, Reference, Repository, Time};
+use git2::{Object, Oid, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
@@ -52,6 +52,20 @@ impl<'p> Program<'p> {
         }
     }
 
+    /// Returns the branch or object ID which a checkout left, given its reflog message.
+    ///
+    /// Returns `None` if the message is not that of a checkout.
+    fn checkout_source(message: &[u8]) -> Option<String> {
+        let prefix = b"checkout: moving from ";
+        if !message.starts_with(prefix) {
+            return None;
+        }
+        let rest = &message[prefix.len()..];
+        // Neither branch names nor object IDs contain spaces, but what was checked out may.
+        let end = rest.windows(4).position(|w| w == b" to ")?;
+        String::from_utf8(rest[..end].to_vec()).ok()
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -72,20 +86,23 @@ impl<'p> Program<'p> {
     fn run<'a>(&self, repo: &'a Repository) -> Result<Box<Iterator<Item = String> + 'a>, Error> {
         match self.kind {
             SortKind::Visited => {
-                let chain: Vec<String> = vec!["HEAD".to_string()];
-                let visits = repo.reflog("HEAD").map_or(0, |log| {
+                let head = Self::stringify(repo.revparse_ext("HEAD").ok());
+                let left: Vec<String> = repo.reflog("HEAD").ok().map_or(vec![], |log| {
                     log.iter()
-                        .filter_map(|e| e.message_bytes().map(<[u8]>::to_vec))
-                        .filter(|m| m.starts_with(b"checkout: moving from "))
-                        .count()
+                        .filter_map(|e| e.message_bytes().and_then(Self::checkout_source))
+                        .collect()
                 });
-                let range = 1..=visits;
-                let iter = chain
-                    .into_iter()
-                    .chain(range.map(|i| format!("@{{-{}}}", i)));
                 Ok(Box::new(
                     // What no longer exists is left out.
-                    iter.filter_map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok())),
+                    head.into_iter()
+                        .chain(left.into_iter().filter_map(move |name| {
+                            let full = format!("refs/heads/{}", name);
+                            if repo.find_reference(&full).is_ok() {
+                                return Some(full);
+                            }
+                            let commit = repo.find_commit(Oid::from_str(&name).ok()?).ok()?;
+                            Some(commit.id().to_string()).filter(|id| *id == name)
+                        })),
                 ))
             }
             SortKind::Committed => {
-- 
2.43.0


From 630261517fa8b27c318719e5303bab6a8d3a5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:07 +0000
Subject: [PATCH 25/27] fix: refuse to write a packet that is too long for its
 header

---
 scutiger-core/src/pktline.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index e74ceb1..019f040 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -239,11 +239,13 @@ impl<W: io::Write> Writer<W> {
                 self.writer.write_all(b"0001")?;
                 Ok(4)
             }
-            PacketType::Data(_) => Self::write_one(
-                &mut self.writer,
-                pkt.data()
-                    .ok_or_else(|| Error::new_simple(ErrorKind::InvalidPacket))?,
-            ),
+            PacketType::Data(_) => {
+                let data = pkt
+                    .data()
+                    .filter(|data| data.len() <= Self::MAX_PACKET_LEN)
+                    .ok_or_else(|| Error::new_simple(ErrorKind::InvalidPacket))?;
+                Self::write_one(&mut self.writer, data)
+            }
         }
     }
 }
-- 
2.43.0


From 3b08359fc4fdc9af66b1887d6cddd15a22496acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 26/27] fix: wait for the pager before ending

---
 scutiger-bin/src/bin/git-recent-refs.rs | 4 +++-
 scutiger-bin/src/bin/pager/mod.rs       | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 5721f2b..e58ec8c 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -209,7 +209,9 @@ fn main() {
     let repo = repo();
     let prog = program(&repo, &matches);
     let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
-    process::exit(prog.main(&mut pager.stdout(), &mut io::stderr()));
+    let status = prog.main(&mut pager.stdout(), &mut io::stderr());
+    pager.finish().expect("unable to wait for pager");
+    process::exit(status);
 }
 
 #[cfg(test)]
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 7f8cfb3..193e6ed 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -43,6 +43,14 @@ impl Pager {
         }
     }
 
+    /// Closes the input of the pager, if there is one, and waits until it ends.
+    pub fn finish(mut self) -> io::Result<()> {
+        if let Some(mut process) = self.process.take() {
+            process.wait()?;
+        }
+        Ok(())
+    }
+
     pub fn stdout<'a>(&'a mut self) -> Box<io::Write + 'a> {
         self.process
             .as_mut()
-- 
2.43.0


From b00e4dcefccf158d7404abdf1729f360fc3a4888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 27/27] fix: print the references directly if the pager is
 empty

---
 scutiger-bin/src/bin/pager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 193e6ed..2f0cd32 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -36,7 +36,7 @@ impl Pager {
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
             .unwrap_or_else(|| "less".into());
-        if pager == "cat" {
+        if pager.is_empty() || pager == "cat" {
             None
         } else {
             Some(pager)
-- 
2.43.0

