From 57c1ddec94b2ce82810820336d5e0221c79689c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 01/22] fix: accept only hexadecimal digits in pkt-line headers

The digit ranges were inclusive, so ':' and 'g' were accepted, and a header
such as "fg00" overflowed the 16-bit sum.
---
 scutiger-core/src/pktline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 21ef9b9..554016e 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -109,8 +109,8 @@ impl<R: io::Read> Reader<R> {
             .enumerate()
             .map(|(i, x)| {
                 let v = match *x {
-                    b'0'...b':' => x - b'0',
-                    b'a'...b'g' => x - b'a' + 10,
+                    b'0'...b'9' => x - b'0',
+                    b'a'...b'f' => x - b'a' + 10,
                     _ => return Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
                 };
                 Ok((v as u16) << ((3 - i) * 4))
-- 
2.43.0


From 111f6e5c5bf571c1b24063e97643d9105c9c7c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 02/22] fix: reject overlong packets in read_packet as in read

read() refused packets longer than the protocol permits; read_packet()
accepted them.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 554016e..49300da 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -95,6 +95,9 @@ impl<R: io::Read> Reader<R> {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
             2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
+            n if n > Self::MAX_PACKET_LEN + 4 => {
+                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
+            }
             _ => {
                 let mut v = vec![0u8; size - 4];
                 self.rdr.read_exact(&mut v)?;
-- 
2.43.0


From cae21f1f936c57022d4549980c66f82f7c882592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 03/22] fix: don't lose buffered data when reading into an
 empty buffer

Reader::read with an empty buffer read another packet over the buffered
rest of the previous one.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 49300da..7bb4bdf 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -129,6 +129,9 @@ impl<R: io::Read> Reader<R> {
 
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let n = cmp::min(self.len - self.off, buf.len());
         if n > 0 {
             buf[0..n].copy_from_slice(&self.buf[self.off..self.off + n]);
-- 
2.43.0


From d3e310a8ed1e894e49afbc22bd980494cf93366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 04/22] fix: refuse to write a packet that is too long for its
 header

write_packet() with more than 65516 bytes of data wrote a header of more
than four digits, or one that no reader accepts.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 7bb4bdf..0a98e54 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -180,6 +180,9 @@ impl<W: io::Write> Writer<W> {
     }
 
     fn write_one(writer: &mut W, buf: &[u8]) -> Result<usize, Error> {
+        if buf.len() > Self::MAX_PACKET_LEN {
+            return Err(Error::new_simple(ErrorKind::InvalidPacket));
+        }
         let header = format!("{:04x}", buf.len() + 4);
         writer.write_all(header.as_bytes())?;
         writer.write_all(buf)?;
-- 
2.43.0


From 88b36e32eacda8c6d26f041f23b41703a6404ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 05/22] fix: don't act on requests that are cut short

If the stream ended before the delimiter or flush packet we were looking
for, the packets read so far were taken as the complete list, so that a
truncated lock or batch request was executed.  A flush packet before the
delimiter was taken as data, and the next request as arguments.
---
 scutiger-lfs/src/processor.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 220acaf..5e7a273 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -108,14 +108,18 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
     }
 
     pub fn read_to_type(&mut self, typ: pktline::PacketType) -> Result<Vec<Bytes>, Error> {
-        self.rdr
-            .iter()
-            .take_while(|pkt| match pkt {
-                Ok(pkt) if pkt.packet_type() == typ => false,
-                _ => true,
-            })
-            .map(|pkt| pkt.map(|p| p.data().unwrap_or(b"").into()))
-            .collect()
+        let mut data = Vec::new();
+        loop {
+            let pkt = self.rdr.read_packet()?;
+            match pkt.packet_type() {
+                t if t == typ => return Ok(data),
+                // A flush packet always ends the request, so what we're looking for is missing.
+                pktline::PacketType::Flush => {
+                    return Err(Error::new_simple(ErrorKind::UnexpectedPacket))
+                }
+                _ => data.push(pkt.data().unwrap_or(b"").into()),
+            }
+        }
     }
 
     pub fn read_to_delim(&mut self) -> Result<Vec<Bytes>, Error> {
-- 
2.43.0


From f0269124bea1e2f6b888e6ce2a2f73c6bebc780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 06/22] fix: read a request to its end before reading the next
 one

If a request was refused or failed before all of it was read, the rest of
it was interpreted as commands: the arguments of a forbidden command, or
the data of an upload with an invalid object ID.
---
 scutiger-core/src/pktline.rs  | 43 +++++++++++++++++++++++++++++++++++
 scutiger-lfs/src/processor.rs |  8 +++++++
 2 files changed, 51 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 0a98e54..fcfe94c 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -50,11 +50,23 @@ impl Packet {
     }
 }
 
+/// The position of a reader in the stream of packets.
+#[derive(Eq, PartialEq, Debug, Copy, Clone)]
+enum Position {
+    /// Nothing has been read yet, or the last packet read was a flush packet.
+    Flush,
+    /// The last packet read was not a flush packet.
+    Inside,
+    /// The last packet could not be read, so packet boundaries are unknown.
+    Lost,
+}
+
 pub struct Reader<R: io::Read> {
     rdr: R,
     buf: [u8; 65536],
     off: usize,
     len: usize,
+    position: Position,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -66,6 +78,15 @@ impl<R: io::Read> Reader<R> {
             buf: [0u8; 65536],
             off: 0,
             len: 0,
+            position: Position::Flush,
+        }
+    }
+
+    fn position_after(typ: Result<PacketType, &Error>) -> Position {
+        match typ {
+            Ok(PacketType::Flush) => Position::Flush,
+            Ok(_) => Position::Inside,
+            Err(_) => Position::Lost,
         }
     }
 
@@ -88,6 +109,27 @@ impl<R: io::Read> Reader<R> {
     }
 
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
+        let pkt = self.read_whole_packet();
+        self.position = Self::position_after(pkt.as_ref().map(Packet::packet_type));
+        pkt
+    }
+
+    /// Discard all packets up to and including the next flush packet.
+    ///
+    /// If the last packet read was a flush packet, nothing is read.
+    pub fn skip_to_flush(&mut self) -> Result<(), Error> {
+        self.off = 0;
+        self.len = 0;
+        loop {
+            match self.position {
+                Position::Flush => return Ok(()),
+                Position::Inside => self.read_packet()?,
+                Position::Lost => return Err(Error::new_simple(ErrorKind::MissingData)),
+            };
+        }
+    }
+
+    fn read_whole_packet(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
         self.rdr.read_exact(&mut hdr)?;
         let size = Self::parse_header(hdr)? as usize;
@@ -149,6 +191,7 @@ impl<R: io::Read> io::Read for Reader<R> {
             } else {
                 (Self::read_one(&mut self.rdr, &mut self.buf), true)
             };
+            self.position = Self::position_after(r.as_ref().map(|&typ| typ));
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
                 (Ok(PacketType::Flush), _) => return Ok(0),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 5e7a273..70c7ee5 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -669,7 +669,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             };
             let msgs: Vec<_> = match pkt.data() {
                 Some(b"") => {
+                    let skipped = self.handler.rdr.skip_to_flush();
                     self.handler.send_error(400, "no command provided")?;
+                    skipped?;
                     continue;
                 }
                 Some(bs) => {
@@ -681,7 +683,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     bs.split(|&b| b == b' ').collect()
                 }
                 None => {
+                    let skipped = self.handler.rdr.skip_to_flush();
                     self.handler.send_error(400, "unknown command")?;
+                    skipped?;
                     continue;
                 }
             };
@@ -706,6 +710,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 }
                 (_, _, _) => self.error(400, "unknown command"),
             };
+            // Whether we succeeded or not, we may not have read the entire request.  Make sure the
+            // rest of it isn't interpreted as another command.
+            let skipped = self.handler.rdr.skip_to_flush();
             match resp {
                 Ok(st) => self.handler.send_status(st),
                 Err(e) => match e.kind() {
@@ -728,6 +735,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     )),
                 },
             }?;
+            skipped?;
         }
     }
 }
-- 
2.43.0


From 66f99e227f97ca4caff3eacf85ce9da6150e61f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 07/22] fix: don't panic if a conflicting lock has gone away

When creating a lock conflicted but no lock was there, the loop ended
without trying again and ran into unreachable!().
---
 scutiger-lfs/src/processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 70c7ee5..dc8a9c3 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -543,11 +543,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         };
         let lock_backend = self.backend.lock_backend();
         let mut retried = false;
-        while !retried {
+        loop {
             let (ok, lock) = match lock_backend.create(path) {
                 Ok(l) => (true, l),
                 Err(e) if e.kind() == ErrorKind::Conflict => match lock_backend.from_path(path) {
                     Ok(Some(l)) => (false, l),
+                    Ok(None) if retried => return Err(e),
                     Ok(None) => {
                         retried = true;
                         continue;
@@ -566,7 +567,6 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             };
         }
-        unreachable!()
     }
 
     fn list_locks_for_path(
-- 
2.43.0


From 1d586e30e9b9835639fdbe2c2ff0553b74a5d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 08/22] fix: give each lock attempt a staging file of its own

An attempt that lost the race removed the winner's staging file before it
was linked, and a staging file left behind by a crash made it impossible
to lock the path.
---
 scutiger-lfs/src/backend/local.rs | 50 +++++++++++++------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9ec1dbb..7341035 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -149,40 +149,40 @@ impl<'a> Backend for LocalBackend<'a> {
 
 struct LockFile {
     path: PathBuf,
-    temp: PathBuf,
+    temp: NamedTempFile<fs::File>,
 }
 
 impl LockFile {
     fn new(path: &Path) -> Result<LockFile, Error> {
-        let mut temp = path.to_owned();
-        temp.set_extension("lock");
+        let dir = path
+            .parent()
+            .ok_or_else(|| Error::new_simple(ErrorKind::InvalidPath))?;
+        // Each attempt has a file of its own, which is removed when we're done with it, so that
+        // nobody else's attempt and no stale file can get in our way.  The permissions are those
+        // permitted by the umask, not those of a private temporary file.
+        let temp = Builder::new()
+            .suffix(".lock")
+            .rand_bytes(12)
+            .make_in(dir, |temp| {
+                fs::OpenOptions::new()
+                    .write(true)
+                    .create_new(true)
+                    .open(temp)
+            })?;
         Ok(LockFile {
             path: path.to_owned(),
             temp,
         })
     }
 
-    fn write(&self, data: &[u8]) -> Result<(), Error> {
-        let mut f = match fs::OpenOptions::new()
-            .write(true)
-            .create_new(true)
-            .open(&self.temp)
-        {
-            Ok(f) => f,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                return Err(Error::new_simple(ErrorKind::Conflict))
-            }
-            Err(e) => return Err(e.into()),
-        };
-        f.write_all(data)?;
-        f.flush()?;
-        drop(f);
+    fn write(&mut self, data: &[u8]) -> Result<(), Error> {
+        self.temp.write_all(data)?;
+        self.temp.flush()?;
         Ok(())
     }
 
-    #[allow(unused_must_use)]
     fn persist(self) -> Result<(), Error> {
-        match fs::hard_link(&self.temp, &self.path) {
+        match fs::hard_link(self.temp.path(), &self.path) {
             Ok(()) => Ok(()),
             Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
                 Err(Error::new_simple(ErrorKind::Conflict))
@@ -192,14 +192,6 @@ impl LockFile {
     }
 }
 
-impl Drop for LockFile {
-    #[allow(unused_must_use)]
-    fn drop(&mut self) {
-        // We don't care if the file removal failed.  We did the best we could.
-        fs::remove_file(&self.temp);
-    }
-}
-
 struct LocalBackendLock {
     root: PathBuf,
     path_name: Bytes,
@@ -333,7 +325,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
-        let lock = LockFile::new(&filename)?;
+        let mut lock = LockFile::new(&filename)?;
         lock.write(&b)?;
         lock.persist()?;
         let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
-- 
2.43.0


From e120e42fbc96fc185e38571cf98c74cf932e24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 09/22] fix: accept only well-formed lock IDs

The ID in an unlock request was used as a file name as it was, so that it
could name any file, and the names of temporary files in the lock
directory were taken for lock IDs.
---
 scutiger-lfs/src/backend/local.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 7341035..a2a6f99 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -355,6 +355,11 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
     }
 
     fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
+        // The ID comes from the client.  It's a SHA-256 hash like an object ID, and nothing else
+        // may be used as a file name.
+        if !Oid::valid(id.as_bytes()) {
+            return Ok(None);
+        }
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
-- 
2.43.0


From bd6c9a4b2382d72b2834fe755c9c382c141377b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 10/22] fix: don't list more locks than requested

The lock that next-cursor refers to was part of the page it was left out
of, too, so it was listed twice.
---
 scutiger-lfs/src/processor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index dc8a9c3..30740ac 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -618,8 +618,11 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .take(limit + 1)
             .collect();
         let items = r?;
-        let lock_specs: Result<Vec<_>, _> =
-            items.iter().map(|l| l.as_lock_spec(use_owner_id)).collect();
+        let lock_specs: Result<Vec<_>, _> = items
+            .iter()
+            .take(limit)
+            .map(|l| l.as_lock_spec(use_owner_id))
+            .collect();
         let lock_specs = lock_specs?.iter().flatten().cloned().collect();
         let next_cursor: Vec<Bytes> = if items.len() == limit + 1 {
             vec![format!("next-cursor={}\n", items[limit].id()).into()]
-- 
2.43.0


From ae6c62527797be217859ae0455ea41de94f31403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 11/22] fix: treat a lock with an impossible time as corrupt

Formatting such a time panicked.
---
 scutiger-lfs/src/backend/local.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index a2a6f99..9cb1f1f 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -217,6 +217,8 @@ impl LocalBackendLock {
         }
         let s: String = String::from_utf8(v[1].clone()).ok()?;
         let time = s.parse().ok()?;
+        // Make sure this is a time we can represent.
+        Utc.timestamp_opt(time, 0).single()?;
         Some((time, v[2].clone().into()))
     }
 
-- 
2.43.0


From cc8094bf96e0c618f9c8408fb9e10c304ea4d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 12/22] fix: treat a lock file whose name doesn't match its
 path as corrupt

Such a file was reported as a lock with another ID than the one asked
for, and unlocking it removed that other lock.
---
 scutiger-lfs/src/backend/local.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9cb1f1f..20aba42 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -381,6 +381,12 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
                 ))
             }
         };
+        if LocalBackendLock::hash_for(&parsed_path) != id {
+            return Err(Error::from_message(
+                ErrorKind::CorruptData,
+                "unexpected path in parsed lock",
+            ));
+        }
         Ok(Some(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: parsed_path,
-- 
2.43.0


From 0735eae861c897c50026fb852cdbce3dcdfb39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 13/22] fix: honour numeric values of core.sharedRepository

Every number is a valid boolean, too, so all of them but 0 were treated
like "group": 0600 and 0640 gave the group write access.
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4465818..e0b30c6 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -98,15 +98,20 @@ impl<'p> Program<'p> {
         let config = self.repo.config()?;
         let sval = config.get_string("core.sharedrepository");
         let tval = sval.as_ref().map(|s| s.as_str());
-        let perms = match (config.get_bool("core.sharedrepository"), tval) {
-            (Ok(true), _) | (_, Ok("group")) => Some(0o660),
-            (Ok(false), _) | (_, Ok("umask")) => None,
-            (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-            (_, Ok(x)) if u16::from_str_radix(x, 8).is_ok() => {
-                Some(u16::from_str_radix(x, 8).unwrap())
+        // Numeric values must be tried first, since Git considers any number a boolean.
+        let number = tval.as_ref().ok().map(|x| u16::from_str_radix(x, 8));
+        let perms = match (number, config.get_bool("core.sharedrepository"), tval) {
+            (Some(Ok(0)), _, _) => None,
+            (Some(Ok(1)), _, _) => Some(0o660),
+            (Some(Ok(2)), _, _) => Some(0o664),
+            (Some(Ok(x)), _, _) => Some(x),
+            (_, Ok(true), _) | (_, _, Ok("group")) => Some(0o660),
+            (_, Ok(false), _) | (_, _, Ok("umask")) => None,
+            (_, _, Ok("all")) | (_, _, Ok("world")) | (_, _, Ok("everybody")) => Some(0o664),
+            (_, _, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
+            (_, _, Err(e)) => {
+                return Err(git2::Error::new(e.code(), e.class(), e.message()).into())
             }
-            (_, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
-            (_, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
             _ => None,
         };
         let res = match perms {
-- 
2.43.0


From 6747c8f8115460c60e6402bacf6bf4623d18534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 14/22] fix: wait for the pager before exiting

Otherwise, it is left in the background fighting with the shell over the
terminal.
---
 scutiger-bin/src/bin/git-recent-refs.rs |  5 ++++-
 scutiger-bin/src/bin/pager/mod.rs       | 11 +++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 6db2085..eb3ae3c 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -187,7 +187,10 @@ fn main() {
     let repo = repo();
     let prog = program(&repo, &matches);
     let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
-    process::exit(prog.main(&mut pager.stdout(), &mut io::stderr()));
+    let status = prog.main(&mut pager.stdout(), &mut io::stderr());
+    // process::exit doesn't run any destructors.
+    drop(pager);
+    process::exit(status);
 }
 
 #[cfg(test)]
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 7f8cfb3..70ccd72 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -53,3 +53,14 @@ impl Pager {
             .unwrap_or_else(|| Box::new(io::stdout()))
     }
 }
+
+impl Drop for Pager {
+    /// Wait until the user has quit the pager.
+    fn drop(&mut self) {
+        if let Some(ref mut p) = self.process {
+            // This also closes the pager's standard input.  We have nothing better to do than to
+            // go on if it fails.
+            let _ = p.wait();
+        }
+    }
+}
-- 
2.43.0


From 666ddd544baed4364576fecac8ef0d6cd5c250aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 15/22] fix: apply patterns to the first line only with
 --summary

The pattern was appended to one which skips the beginning of the first
line, so that the second of two alternatives was searched for anywhere,
a pattern that matches newlines could match further lines, and anchors
didn't work.
---
 scutiger-bin/src/bin/git-at.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 4d3258b..15125aa 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -64,8 +64,8 @@ impl<'a> Program<'a> {
     /// one occurred. If the Error is due to no revision matching, the kind of the error will be
     /// `ErrorKind::NoSuchRevision`.
     fn run(&self) -> Result<Oid, Error> {
-        let regex = self.pattern(self.text)?;
-        let fixup_regex = self.pattern("\\A\\s*(?:fixup|squash)!")?;
+        let regex = Regex::new(self.text)?;
+        let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
         let head = self.repo.revparse_single(self.head)?;
         let mut walker = self.repo.revwalk()?;
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
@@ -76,7 +76,12 @@ impl<'a> Program<'a> {
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
             }
-            if regex.is_match(message)? {
+            let text = if self.summary {
+                message.split(|&b| b == b'\n').next().unwrap_or(message)
+            } else {
+                message
+            };
+            if regex.is_match(text)? {
                 return Ok(commit.id());
             }
         }
@@ -116,13 +121,6 @@ impl<'a> Program<'a> {
             }
         }
     }
-
-    fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
-        if self.summary {
-            return Ok(Regex::new(&format!("\\A[^\n]*{}", pattern))?);
-        }
-        Ok(Regex::new(pattern)?)
-    }
 }
 
 fn parse_options<'a>() -> App<'a, 'a> {
-- 
2.43.0


From 561778f8f63c5e2543d49ed7eef3432e6231aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 16/22] fix: report arguments that can't be parsed as the
 client's error

They were answered with status 500 instead of 400.
---
 scutiger-lfs/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 30740ac..7ba0cd0 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -724,6 +724,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     | ErrorKind::UnexpectedPacket
                     | ErrorKind::InvalidLFSOid
                     | ErrorKind::InvalidInteger
+                    | ErrorKind::ParseError
                     | ErrorKind::MissingData
                     | ErrorKind::ExtraData
                     | ErrorKind::CorruptData
-- 
2.43.0


From 0feebf4048bfc2554f9e7e8f9f9385db15188920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 17/22] fix: set an object's permissions before making it
 visible

For a moment, or for good if the process was killed, the object was there
but couldn't be read by anyone but its owner.
---
 scutiger-lfs/src/backend/local.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 20aba42..3541db2 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -94,14 +94,10 @@ impl<'a> Backend for LocalBackend<'a> {
         if let Some(parent) = dest_path.parent() {
             fs::create_dir_all(parent)?;
         }
-        state
-            .tempfile
-            .take()
-            .unwrap()
-            .into_temp_path()
-            .persist(&dest_path)
+        let path = state.tempfile.take().unwrap().into_temp_path();
+        self.fix_permissions(&path)?;
+        path.persist(&dest_path)
             .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
-        self.fix_permissions(&dest_path)?;
         Ok(())
     }
 
-- 
2.43.0


From 5ac66b14a2bfd7f4e355fd9131e23694f8ac2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 18/22] fix: report the time of a lock that was stored

The clock was read twice, so that the time in the response could differ
from the one in the lock file.
---
 scutiger-lfs/src/backend/local.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 3541db2..3b5f457 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -319,7 +319,8 @@ impl<'a> LocalLockBackend<'a> {
 impl<'a> LockBackend for LocalLockBackend<'a> {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
         let id = LocalBackendLock::hash_for(path);
-        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, self.timestamp()).into();
+        let time = self.timestamp();
+        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, time).into();
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
@@ -330,7 +331,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-            time: self.timestamp(),
+            time,
             ownername: user,
         }))
     }
-- 
2.43.0


From 9f21067c571cb5e316aea4371943a5c0d1c97994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 19/22] fix: don't stop at a branch that has been deleted

The list of visited branches ended at the first one that doesn't exist
any more.
---
 scutiger-bin/src/bin/git-recent-refs.rs  | 28 ++++++++++++++++++------
 scutiger-lfs/src/bin/git-lfs-transfer.rs |  4 +---
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index eb3ae3c..7ec38fc 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -17,7 +17,7 @@ mod pager;
 pub mod fixtures;
 
 use clap::{App, AppSettings, Arg, ArgMatches};
-use git2::{Object, Reference, Repository, Time};
+use git2::{Object, Reference, Reflog, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
@@ -52,6 +52,16 @@ impl<'p> Program<'p> {
         }
     }
 
+    fn checkouts(log: &Reflog) -> usize {
+        log.iter()
+            .filter(|entry| {
+                entry
+                    .message_bytes()
+                    .map_or(false, |m| m.starts_with(b"checkout: moving from "))
+            })
+            .count()
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -72,16 +82,20 @@ impl<'p> Program<'p> {
     fn run<'a>(&self, repo: &'a Repository) -> Result<Box<Iterator<Item = String> + 'a>, Error> {
         match self.kind {
             SortKind::Visited => {
+                // There are as many previous positions as checkouts in the reflog.  Some of them may
+                // no longer exist.
+                let count = repo
+                    .reflog("HEAD")
+                    .map(|log| Self::checkouts(&log))
+                    .unwrap_or(0);
                 let chain: Vec<String> = vec!["HEAD".to_string()];
-                let range = 1..;
+                let range = 1..count + 1;
                 let iter = chain
                     .into_iter()
                     .chain(range.map(|i| format!("@{{-{}}}", i)));
-                Ok(Box::new(
-                    iter.map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok()))
-                        .take_while(Option::is_some)
-                        .map(Option::unwrap),
-                ))
+                Ok(Box::new(iter.filter_map(move |rev| {
+                    Self::stringify(repo.revparse_ext(&rev).ok())
+                })))
             }
             SortKind::Committed => {
                 let mut refs: Vec<_> = repo
diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index e0b30c6..a148cb8 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -109,9 +109,7 @@ impl<'p> Program<'p> {
             (_, Ok(false), _) | (_, _, Ok("umask")) => None,
             (_, _, Ok("all")) | (_, _, Ok("world")) | (_, _, Ok("everybody")) => Some(0o664),
             (_, _, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
-            (_, _, Err(e)) => {
-                return Err(git2::Error::new(e.code(), e.class(), e.message()).into())
-            }
+            (_, _, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
             _ => None,
         };
         let res = match perms {
-- 
2.43.0


From 916e181772b4597f3d3a77bffc865e63857f2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 20/22] fix: list references whose names aren't UTF-8, too

---
 scutiger-bin/src/bin/git-recent-refs.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 7ec38fc..1304ba5 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -46,12 +46,17 @@ impl<'p> Program<'p> {
     ///
     fn stringify<'b>(obj: Option<(Object<'b>, Option<Reference<'b>>)>) -> Option<String> {
         match obj {
-            Some((_, Some(r2))) => Some(r2.name()?.into()),
+            Some((_, Some(r2))) => Some(Self::name_for(&r2)),
             Some((r1, None)) => Some(format!("{}", r1.id())),
             None => None,
         }
     }
 
+    fn name_for(r: &Reference) -> String {
+        // Not all names are UTF-8, but that's no reason to leave out a reference.
+        String::from_utf8_lossy(r.name_bytes()).into()
+    }
+
     fn checkouts(log: &Reflog) -> usize {
         log.iter()
             .filter(|entry| {
@@ -106,8 +111,7 @@ impl<'p> Program<'p> {
                     .collect();
                 refs.sort_by(|a, b| b.1.cmp(&a.1));
                 Ok(Box::new(
-                    refs.into_iter()
-                        .filter_map(|(_, _, r)| Some(r.name()?.to_string())),
+                    refs.into_iter().map(|(_, _, r)| Self::name_for(&r)),
                 ))
             }
             SortKind::Authored => {
@@ -119,8 +123,7 @@ impl<'p> Program<'p> {
                     .collect();
                 refs.sort_by(|a, b| b.1.cmp(&a.1));
                 Ok(Box::new(
-                    refs.into_iter()
-                        .filter_map(|(_, _, r)| Some(r.name()?.to_string())),
+                    refs.into_iter().map(|(_, _, r)| Self::name_for(&r)),
                 ))
             }
         }
-- 
2.43.0


From 815ced90c1c4a07f3d69eb5b5ebb050d4b8f2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 21/22] fix: don't panic if the operation isn't valid UTF-8

`value_of` panics for an argument that isn't UTF-8.  The operation comes from
the client, so treat one that isn't UTF-8 like any other unknown one.
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index a148cb8..b0b17b3 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -173,7 +173,9 @@ fn parse_options<'a>() -> App<'a, 'a> {
 }
 
 fn program<'a>(r: &'a Repository, matches: &'a ArgMatches) -> Program<'a> {
-    Program::new(r, matches.value_of("operation").unwrap().into())
+    // This need not be valid UTF-8, in which case it is an unknown operation.
+    let operation = matches.value_of_os("operation").unwrap();
+    Program::new(r, operation.to_string_lossy().into_owned())
 }
 
 fn repo<P: AsRef<Path>>(path: P) -> Repository {
-- 
2.43.0


From 8a2c7c0ff0f099affe5f1680713b354088792a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 22/22] fix: compare a lock's ID with the cursor the right way
 around

The order of bytes 0.4 has its arguments swapped where a slice is compared with a Bytes, so list-lock
sent the first page again whatever the cursor was.
---
 scutiger-lfs/src/processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 7ba0cd0..1ea3a3b 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -578,7 +578,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         match (self.backend.lock_backend().from_path(path), cursor) {
             (Err(e), _) => Err(e),
             (Ok(None), _) => self.error(404, "not found"),
-            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id => self.error(404, "not found"),
+            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < &id[..] => self.error(404, "not found"),
             (Ok(Some(l)), _) => l.as_lock_spec(use_owner_id).map(Status::new_success),
         }
     }
@@ -612,7 +612,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .iter()
             .skip_while(|item| match (item, cursor) {
                 (Err(_), _) => false,
-                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor,
+                (Ok(l), Some(cursor)) => l.id().as_bytes() < &cursor[..],
                 (Ok(_), None) => false,
             })
             .take(limit + 1)
-- 
2.43.0

