From 5fa7d80582730c16fafcab4107e5d50907237b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:26 +0000
Subject: [PATCH 01/29] fix: do not index past the end of a header line that
 has no colon

---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 51e3f52..1ac67c0 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -277,7 +277,7 @@ impl Header {
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
         // After the token we MUST receive a colon.
-        if line[i] != b':' {
+        if i >= line.len() || line[i] != b':' {
             error!(
                 "invalid header line: {}, missing semicolon",
                 String::from_utf8_lossy(line)
-- 
2.43.0


From f49d159c574e3de24c11c76174e4a581660c4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:26 +0000
Subject: [PATCH 02/29] fix: stop reading headers when the stream ends before
 the empty line

---
 wruster/src/http/headers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 1ac67c0..fa0526b 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -228,8 +228,13 @@ impl Header {
         let mut line = Vec::<u8>::new();
         loop {
             let mut header_chunk = Vec::<u8>::new();
-            from.read_until(b'\n', &mut header_chunk)
+            let read = from
+                .read_until(b'\n', &mut header_chunk)
                 .map_err(HttpError::from)?;
+            if read == 0 {
+                // The connection was closed in the middle of the headers.
+                return Err(HttpError::ConnectionClosed);
+            }
             line.append(&mut header_chunk);
             debug!("header chunk read: {}", String::from_utf8_lossy(&line));
             let len = line.len();
-- 
2.43.0


From 2285db33f4835788b6c74b8f19d5b413bbba3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:26 +0000
Subject: [PATCH 03/29] fix: write the whole start line even if the writer
 accepts it in parts

---
 wruster/src/http/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index a08d922..de02306 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -291,7 +291,7 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
         let line = format!("{:#} {} {}\r\n", self.method, self.uri, self.version);
-        to.write(line.as_bytes()).map_err(HttpError::from)?;
+        to.write_all(line.as_bytes()).map_err(HttpError::from)?;
         Ok(())
     }
 }
@@ -826,7 +826,7 @@ impl HttpResponseLine {
         // https://datatracker.ietf.org/doc/html/rfc7230#section-3.1.2
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
-        if let Err(err) = to.write(payload.as_bytes()) {
+        if let Err(err) = to.write_all(payload.as_bytes()) {
             return Err(HttpError::Unknown(err.to_string()));
         };
         Ok(())
-- 
2.43.0


From b1616939d13d19f5b67baefb2f0fd7d93c2eeb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:26 +0000
Subject: [PATCH 04/29] fix: report the errors found flushing the end of a big
 body

---
 wruster/src/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index de02306..201d87e 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -378,7 +378,7 @@ impl Body {
             x if x > u64::pow(2, 20) * 2 => {
                 let buff_size = usize::pow(2, 20);
                 let mut dest = BufWriter::with_capacity(buff_size, to);
-                io::copy(src, &mut dest)
+                io::copy(src, &mut dest).and_then(|n| dest.flush().map(|_| n))
             }
             _ => io::copy(src, to),
         };
-- 
2.43.0


From 75a6c517e464506fa9f47556beb9c02ee972f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:26 +0000
Subject: [PATCH 05/29] fix: ensure_read must not underflow when more bytes
 than declared were read

---
 wruster/src/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 201d87e..52712a8 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -475,7 +475,7 @@ impl Body {
     Ensures the content length specified in the body is read from the underlying reader.
     */
     pub fn ensure_read(&mut self) -> Result<(), HttpError> {
-        if self.bytes_read == self.content_length {
+        if self.bytes_read >= self.content_length {
             return Ok(());
         }
         let n = self.content_length - self.bytes_read;
-- 
2.43.0


From 5ebf7f9d585b92bbc40f34f16ebdd8ae73ea6b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:49 +0000
Subject: [PATCH 06/29] fix: write exactly one Content-Length header in every
 response

---
 wruster/src/http/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 52712a8..57dae77 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -134,7 +134,7 @@ impl Request {
         };
 
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.body.is_none() && self.headers.get("Content-Length").is_none() {
             self.headers.add(Header {
                 name: String::from("Content-Length"),
                 value: String::from("0"),
@@ -618,10 +618,14 @@ impl Response {
             reason_phrase: self.status.clone().into(),
         };
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.headers.get("Content-Length").is_none() {
+            let length = match &self.body {
+                Some(body) => body.content_length,
+                None => 0,
+            };
             self.headers.add(Header {
                 name: String::from("Content-Length"),
-                value: String::from("0"),
+                value: length.to_string(),
             })
         }
         self.headers.write(to)?;
-- 
2.43.0


From 4f15daba3fb5884e05b2ca500b86fa80946d89be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:49 +0000
Subject: [PATCH 07/29] fix: a request line must be a single line ended by CRLF

---
 wruster/src/http/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 57dae77..2f471ce 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -262,7 +262,7 @@ impl HttpRequestLine {
         if let Err(err) = from.read_until(b' ', &mut uri) {
             return Err(Unknown(err.to_string()));
         };
-        if uri.len() < 2 {
+        if uri.len() < 2 || uri.contains(&b'\n') {
             return Err(InvalidRequest("invalid request line".to_string()));
         };
 
@@ -275,7 +275,7 @@ impl HttpRequestLine {
             return Err(InvalidRequest("invalid request line".to_string()));
         };
 
-        if version[version.len() - 2] != (b'\r') {
+        if version[version.len() - 2] != (b'\r') || version[version.len() - 1] != (b'\n') {
             return Err(InvalidRequest("invalid request line".to_string()));
         }
         let version = String::from_utf8_lossy(&version[..version.len() - 2]);
-- 
2.43.0


From 11e4a8825a6e681f03db138659c8f8c98a55882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 08/29] fix: accept only digits in the Content-Length header

---
 wruster/src/http/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 2f471ce..755c195 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -433,6 +433,11 @@ impl Body {
             }
         };
 
+        // The usize parser also accepts a plus sign before the digits.
+        if len.starts_with('+') {
+            let msg = format!("invalid Content-Length header, {}", len);
+            return Err(Unknown(msg));
+        }
         let len = match usize::from_str(len) {
             Err(err) => {
                 let msg = format!("invalid Content-Length header, {}", err);
-- 
2.43.0


From 5229989ddb5ec8a7174083728279fb7505d71e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 09/29] fix: remove the optional white space that follows a
 header value

---
 wruster/src/http/headers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index fa0526b..564c43f 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -307,7 +307,14 @@ impl Header {
             j += 1;
         }
         header_value_start = j;
-        for j in header_value_start..line.len() {
+        // The optional white space at the end is not part of the value.
+        let mut header_value_end = line.len();
+        while header_value_end > header_value_start
+            && (line[header_value_end - 1] as char).is_optional_white_space()
+        {
+            header_value_end -= 1;
+        }
+        for j in header_value_start..header_value_end {
             let c = line[j] as char;
             if !c.is_valid_field_content() {
                 debug!(
-- 
2.43.0


From e3ac258f38da7d873a86ba739e93de648cad22a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 10/29] fix: a panic in an action must not kill the worker nor
 the server

---
 wruster/src/thread_pool/dynamic_pool.rs | 6 +++---
 wruster/src/thread_pool/mod.rs          | 9 +++++++++
 wruster/src/thread_pool/static_pool.rs  | 4 ++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index 76b7437..f385de3 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -7,7 +7,7 @@ use std::time::Duration;
 
 use atomic_refcell::AtomicRefCell;
 
-use super::{Action, PoolError};
+use super::{execute, Action, PoolError};
 
 type DynamicWorkerFinished = Box<dyn FnOnce() + Send>;
 
@@ -31,12 +31,12 @@ impl DynamicWorker {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            first_action();
+            execute(first_action);
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
                     Ok(action) => {
-                        action();
+                        execute(action);
                         debug!("action executed");
                         continue;
                     }
diff --git a/wruster/src/thread_pool/mod.rs b/wruster/src/thread_pool/mod.rs
index 7193301..79dabad 100644
--- a/wruster/src/thread_pool/mod.rs
+++ b/wruster/src/thread_pool/mod.rs
@@ -1,3 +1,4 @@
+use std::panic::{self, AssertUnwindSafe};
 use std::{fmt::Debug, time::Duration};
 
 mod dynamic_pool;
@@ -7,6 +8,14 @@ use self::{dynamic_pool::Dynamic, static_pool::Static};
 
 type Action = Box<dyn FnOnce() + Send + 'static>;
 
+/// Executes an action containing its panics, so they don't kill the worker
+/// that executes it.
+fn execute(action: Action) {
+    if panic::catch_unwind(AssertUnwindSafe(action)).is_err() {
+        error!("an action panicked");
+    }
+}
+
 const DEFAULT_TIMEOUT: Duration = Duration::from_secs(10);
 
 pub struct PoolError {
diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index a419048..a21f172 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -3,7 +3,7 @@ use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
 use std::thread;
 
-use super::{Action, PoolError};
+use super::{execute, Action, PoolError};
 
 struct Worker {
     id: usize,
@@ -20,7 +20,7 @@ impl Worker {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
-                action();
+                execute(action);
                 debug!("action executed");
                 continue;
             }
-- 
2.43.0


From 850481d5446acb94728507a818f70d0457a7df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 11/29] fix: an error accepting one connection must not stop
 the server

---
 wruster/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index a14071f..cd0d6f6 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -360,7 +360,13 @@ impl Server {
                     continue;
                 }
                 let (stream, src_addr) = match listener.accept() {
-                    Err(err) => return Err(Box::new(err)),
+                    Err(err) => {
+                        // An error accepting a connection, e.g: the client
+                        // closed it, must not stop the server.
+                        error!("error accepting a connection: {}", err);
+                        epoller.modify(&listener, Event::readable(1)).unwrap();
+                        continue;
+                    }
                     Ok(connection) => connection,
                 };
                 epoller.modify(&listener, Event::readable(1)).unwrap();
-- 
2.43.0


From fea3a1c56d3b4ab88d1080ec77abd000cb1b7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 12/29] fix: a TLS session that can not be created must not
 stop the server

---
 wruster/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index cd0d6f6..c669dee 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -267,7 +267,7 @@ impl Server {
         cert: Certificate,
     ) -> ServerResult {
         self.start(addr, routes, move |stream: TcpStream| {
-            let stream = tls::Stream::new(stream, key.clone(), cert.clone()).unwrap();
+            let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
         })
     }
-- 
2.43.0


From b64266f0222f58bf9cd6ac64b791b7803b8c00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 13/29] fix: account the time of the operations without
 truncating it to seconds

---
 wruster/src/streams/timeout_stream.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 115b2b0..33c98df 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -113,7 +113,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = read.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         let stream = &self.stream;
@@ -157,7 +157,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = write.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {
@@ -185,7 +185,7 @@ where
 struct Operation {
     timeout: Duration,
     started: Option<Instant>,
-    elapsed_secs: u64,
+    elapsed: Duration,
 }
 
 impl Operation {
@@ -193,17 +193,12 @@ impl Operation {
         Operation {
             timeout,
             started: None,
-            elapsed_secs: 0,
+            elapsed: Duration::from_secs(0),
         }
     }
 
     fn next_timeout(&mut self) -> Duration {
-        if self.elapsed_secs >= self.timeout.as_secs() {
-            Duration::from_secs(0)
-        } else {
-            let remaining = self.timeout.as_secs() - self.elapsed_secs;
-            Duration::from_secs(remaining)
-        }
+        self.timeout.saturating_sub(self.elapsed)
     }
 
     fn start(&mut self) {
@@ -212,8 +207,7 @@ impl Operation {
 
     fn stop(&mut self) {
         if let Some(started) = self.started {
-            let elapsed = started.elapsed().as_secs();
-            self.elapsed_secs += elapsed;
+            self.elapsed = self.elapsed.saturating_add(started.elapsed());
         } else {
             println!("operation not initialized stopped");
         }
-- 
2.43.0


From 4c20e73e2d424642da1f0d9e9dea0fd67e4a638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 14/29] fix: store the new connection when the pool is full

---
 wruster/src/http/client/connection_pool.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/client/connection_pool.rs b/wruster/src/http/client/connection_pool.rs
index b66be95..ec087b5 100644
--- a/wruster/src/http/client/connection_pool.rs
+++ b/wruster/src/http/client/connection_pool.rs
@@ -114,12 +114,10 @@ where
     pub fn insert(&self, key: &str, connection: PoolResource<T>) {
         let mut connections = self.resources.write().unwrap();
         let connections = connections.borrow_mut();
-        match connections.len() {
-            MAX_RESOURCES => Self::remove_lru(connections),
-            _ => {
-                connections.insert(key.to_string(), connection);
-            }
+        if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {
+            Self::remove_lru(connections);
         }
+        connections.insert(key.to_string(), connection);
     }
 
     /**
-- 
2.43.0


From b1a2fa63f2a493a6139624052b8839c45b5c9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:12 +0000
Subject: [PATCH 15/29] fix: reuse a client connection only after a complete
 and persistent exchange

---
 wruster/src/http/client/mod.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 73315f7..e25c7db 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -48,13 +48,29 @@ impl DerefMut for ClientResponse {
 impl Drop for ClientResponse {
     fn drop(&mut self) {
         if let Some(pool) = self.pool.upgrade() {
+            // A connection can only be reused if the other side keeps it open
+            // and the end of the response is known.
+            let headers = &self.response.headers;
+            let closed = match headers.get("Connection") {
+                None => false,
+                Some(values) => values[0].to_lowercase() == "close",
+            };
+            if closed || headers.get("Content-Length").is_none() {
+                return;
+            }
+
             if let Some(body) = self.response.body.as_mut() {
-                body.ensure_read().consume_error(|err| {
+                let read = body.ensure_read();
+                let complete = read.is_ok();
+                read.consume_error(|err| {
                     error!(
                         "error ensuring body in request has completely read: {}",
                         err
                     );
                 });
+                if !complete {
+                    return;
+                }
             }
 
             let pool = match pool.lock() {
@@ -89,8 +105,9 @@ impl<'a> Client {
     }
 
     pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+        let persistent = request.is_connection_persistent();
         let conn = {
-            match request.is_connection_persistent() {
+            match persistent {
                 true => {
                     let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                     match pool.get(addr) {
@@ -120,7 +137,10 @@ impl<'a> Client {
         let response = ClientResponse {
             response,
             conn: response_conn,
-            pool: Arc::downgrade(&response_pool),
+            pool: match persistent {
+                true => Arc::downgrade(&response_pool),
+                false => Weak::new(),
+            },
             addr: addr.to_string(),
         };
         Ok(response)
-- 
2.43.0


From ea6cb68e0eac0280883647a24cf5dc8ad78dd7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:12 +0000
Subject: [PATCH 16/29] fix: serve_static must not serve files outside of the
 given directory

---
 wruster_handlers/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index b87f6f3..055dd7b 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -4,7 +4,8 @@ new handlers in a wruster web server.
 */
 use std::fs;
 use std::io::Read;
-use std::{io, path::PathBuf};
+use std::io;
+use std::path::{Component, Path, PathBuf};
 
 #[macro_use]
 extern crate log;
@@ -44,6 +45,13 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
         uri = &uri[1..]
     }
+    // Only the paths below the base directory can be served.
+    for component in Path::new(uri).components() {
+        match component {
+            Component::Normal(_) | Component::CurDir => (),
+            _ => return Response::from_status(StatusCode::NotFound),
+        }
+    }
     let mut path = base_path;
     path.push(uri);
 
-- 
2.43.0


From 6c3c7aa8085bb965b26dafb889fd5394fe90c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:12 +0000
Subject: [PATCH 17/29] fix: serve_static must answer not found to the paths
 that are not a file

---
 wruster_handlers/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 055dd7b..803a94a 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -65,6 +65,10 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
     };
 
+    if !metadata.is_file() {
+        return Response::from_status(StatusCode::NotFound);
+    }
+
     let content = match fs::File::open(&path) {
         Ok(content) => content,
         Err(err) => {
-- 
2.43.0


From 1d5dc0be86cec6bff03f80748e2d2627ec57be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:12 +0000
Subject: [PATCH 18/29] fix: serve_static must not send more bytes than the
 declared length

---
 wruster_handlers/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 803a94a..3630a8d 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -80,7 +80,7 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
     };
     let mime_type = mime_guess::from_path(path).first_or_octet_stream();
     let mut headers = Headers::new();
-    let content: Box<dyn Read> = Box::new(content);
+    let content: Box<dyn Read> = Box::new(content.take(metadata.len()));
     headers.add(Header {
         name: String::from("Content-Length"),
         value: metadata.len().to_string(),
-- 
2.43.0


From 76b10d61856eb4e721d9031de3e563ff2a680f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:12 +0000
Subject: [PATCH 19/29] fix: serve_static must not panic when the directory can
 not be resolved

---
 wruster_handlers/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 3630a8d..9a4d61c 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -37,7 +37,10 @@ server.wait().unwrap();
 ```
 */
 pub fn serve_static(dir: &str, request: &Request) -> Response {
-    let base_path: PathBuf = PathBuf::from(dir).canonicalize().unwrap();
+    let base_path: PathBuf = match PathBuf::from(dir).canonicalize() {
+        Ok(path) => path,
+        Err(_) => return Response::from_status(StatusCode::InternalServerError),
+    };
     let mut uri = request.uri.as_str();
     if uri.starts_with('/') {
         if uri.len() < 2 {
-- 
2.43.0


From 38ea0c87f77cf1d6613d5680a51773ea1fbdbf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 20/29] fix: read the data already received by a TLS session
 before waiting for more

---
 wruster/src/streams/cancellable_stream.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 52d1b52..5c9dbc6 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -58,6 +58,15 @@ where
     }
 
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
+        // The stream can hold data that was already received, e.g.: when using
+        // TLS, so the OS will not generate any event for it.
+        if !self.done.load(Ordering::SeqCst) {
+            match self.stream.read_buf(buf) {
+                Ok(0) => (),
+                Err(err) if err.kind() == io::ErrorKind::WouldBlock => (),
+                result => return result,
+            }
+        }
         self.poller
             .modify(self.stream.as_raw(), Event::readable(1))?;
         let mut events = Vec::new();
-- 
2.43.0


From 089360c0e553f2a07d019cbdd51af87697c4e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 21/29] verif: expose internal items to the verification
 harness behind cfg(wruster_verif)

---
 wruster/src/http/client/mod.rs |  5 ++++
 wruster/src/lib.rs             |  3 +++
 wruster/src/thread_pool/mod.rs |  6 +++++
 wruster/src/verif.rs           | 43 ++++++++++++++++++++++++++++++++++
 4 files changed, 57 insertions(+)
 create mode 100644 wruster/src/verif.rs

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index e25c7db..cd54027 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -15,6 +15,11 @@ use crate::streams::timeout_stream::TimeoutStream;
 
 mod connection_pool;
 
+#[cfg(wruster_verif)]
+pub mod verif {
+    pub use super::connection_pool::{Pool as ConnectionPool, PoolResource as ConnectionPoolResource};
+}
+
 #[cfg(test)]
 mod tests;
 
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index c669dee..0981635 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -77,6 +77,9 @@ pub mod test_utils;
 mod streams;
 mod thread_pool;
 
+#[cfg(wruster_verif)]
+pub mod verif;
+
 /// Defines the default max time for a request to be read
 pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_secs(30);
 
diff --git a/wruster/src/thread_pool/mod.rs b/wruster/src/thread_pool/mod.rs
index 79dabad..5ab2143 100644
--- a/wruster/src/thread_pool/mod.rs
+++ b/wruster/src/thread_pool/mod.rs
@@ -6,6 +6,12 @@ mod static_pool;
 
 use self::{dynamic_pool::Dynamic, static_pool::Static};
 
+#[cfg(wruster_verif)]
+pub mod verif {
+    pub use super::dynamic_pool::Dynamic;
+    pub use super::static_pool::Static;
+}
+
 type Action = Box<dyn FnOnce() + Send + 'static>;
 
 /// Executes an action containing its panics, so they don't kill the worker
diff --git a/wruster/src/verif.rs b/wruster/src/verif.rs
new file mode 100644
index 0000000..4cc5036
--- /dev/null
+++ b/wruster/src/verif.rs
@@ -0,0 +1,43 @@
+//! Access to internal items for the verification harness, it is only compiled
+//! when the cfg flag `wruster_verif` is set.
+#![allow(missing_docs)]
+
+pub use crate::http::client::verif::{ConnectionPool, ConnectionPoolResource};
+pub use crate::streams::cancellable_stream::CancellableStream;
+pub use crate::streams::observable::{ObservableStream, ObservedStream, ObservedStreamList};
+pub use crate::streams::timeout_stream::{Timeout, TimeoutStream};
+pub use crate::streams::{tls, BaseStream, Stream};
+pub use crate::thread_pool::verif::{Dynamic, Static};
+pub use crate::thread_pool::{Pool, PoolError};
+
+use crate::http::{HttpMethod, Request, Response};
+use crate::router::{HttpHandler, Normalize, Router};
+use crate::Timeouts;
+use std::net::SocketAddr;
+use std::path::PathBuf;
+use std::sync::Arc;
+
+pub fn resolve(router: &Router, path: &str, method: HttpMethod) -> Option<Arc<HttpHandler>> {
+    router.get_prefix(String::from(path), method)
+}
+
+pub fn normalize(path: &PathBuf) -> Option<PathBuf> {
+    path.normalize().ok()
+}
+
+pub fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
+    crate::run_action(request, routes)
+}
+
+pub fn is_connection_persistent(request: &Request) -> bool {
+    crate::is_connection_persistent(request)
+}
+
+pub fn handle_conversation<T: Stream + 'static>(
+    stream: ObservedStream<T>,
+    routes: Arc<Router>,
+    timeouts: Timeouts,
+    source_addr: SocketAddr,
+) {
+    crate::handle_conversation(stream, routes, timeouts, source_addr)
+}
-- 
2.43.0


From 2de40ee088f09e28d29ad9ee14a5fdd793953a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 22/29] fix: keep a cancellable stream non blocking after a
 failed write

---
 wruster/src/streams/cancellable_stream.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 5c9dbc6..ff985ef 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -159,10 +159,7 @@ where
                     Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
                         break;
                     }
-                    Err(err) => {
-                        self.stream.set_nonblocking(false)?;
-                        return Err(err);
-                    }
+                    Err(err) => return Err(err),
                 };
                 break;
             }
-- 
2.43.0


From ff53b8e4c17e7ecc26da712973175b0b92db77b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 23/29] fix: do not hand out a pooled connection that has
 expired

---
 wruster/src/http/client/connection_pool.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/client/connection_pool.rs b/wruster/src/http/client/connection_pool.rs
index ec087b5..8b1f90f 100644
--- a/wruster/src/http/client/connection_pool.rs
+++ b/wruster/src/http/client/connection_pool.rs
@@ -59,6 +59,7 @@ where
     T: Send + Sync + 'static,
 {
     resources: Arc<RwLock<HashMap<String, PoolResource<T>>>>,
+    idle_timeout: Duration,
     expire_worker_handle: Option<thread::JoinHandle<()>>,
     expire_worker_stop: Arc<AtomicBool>,
 }
@@ -82,6 +83,7 @@ where
         let expire_worker_handle = Some(expire_worker_handle);
         Pool {
             resources,
+            idle_timeout,
             expire_worker_handle,
             expire_worker_stop,
         }
@@ -108,7 +110,13 @@ where
 
     pub fn get(&self, key: &str) -> Option<PoolResource<T>> {
         let mut resources = self.resources.write().unwrap();
-        resources.remove(key)
+        let conn = resources.remove(key)?;
+        // The expire worker only runs from time to time, so the resource could
+        // have expired already.
+        if conn.last_used.elapsed() >= self.idle_timeout {
+            return None;
+        }
+        Some(conn)
     }
 
     pub fn insert(&self, key: &str, connection: PoolResource<T>) {
-- 
2.43.0


From 210f591a4aeb64a3512575179389d6871b7905c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 24/29] fix: do not keep a connection whose request body was
 taken away unread

---
 wruster/src/lib.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 0981635..da7a47b 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -43,10 +43,13 @@ fn main() {
 ```
 */
 
+use std::cell::Cell;
 use std::error::Error as StdError;
-use std::io::{self, Error, ErrorKind};
+use std::io::{self, Error, ErrorKind, Read};
+use std::mem;
 use std::net::{SocketAddr, TcpListener, TcpStream};
 use std::path::PathBuf;
+use std::rc::Rc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 use std::thread::JoinHandle;
@@ -598,9 +601,13 @@ where
     let resp_stream = stream.clone();
     let timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
 
+    let unread = Rc::new(Cell::new(0));
     let (request, mut response) = match Request::read_from(timeout_stream) {
         Ok(mut request) => {
             connection_open = is_connection_persistent(&request);
+            if let Some(body) = request.body.as_mut() {
+                RequestContent::watch(body, &unread);
+            }
             let response = run_action(&mut request, routes);
             (Some(request), response)
         }
@@ -638,7 +645,34 @@ where
         );
         return false;
     };
-    connection_open
+    // The action can take the body away from the request, if it does not read
+    // it to the end what is left can not be told from the next request.
+    connection_open && unread.get() == 0
+}
+
+/// The content of the body of a request, it counts the bytes not read yet.
+struct RequestContent {
+    content: Box<dyn Read>,
+    unread: Rc<Cell<u64>>,
+}
+
+impl RequestContent {
+    fn watch(body: &mut Body, unread: &Rc<Cell<u64>>) {
+        unread.set(body.content_length);
+        let content = mem::replace(&mut body.content, Box::new(io::empty()));
+        body.content = Box::new(RequestContent {
+            content,
+            unread: Rc::clone(unread),
+        });
+    }
+}
+
+impl Read for RequestContent {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let n = self.content.read(buf)?;
+        self.unread.set(self.unread.get().saturating_sub(n as u64));
+        Ok(n)
+    }
 }
 
 fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
-- 
2.43.0


From 218d41fe0ef5252c524433e9c2a38a71ba53d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 25/29] fix: answer 404 for paths that no file can have in the
 static handler

---
 wruster_handlers/src/lib.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 9a4d61c..18b45af 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -60,12 +60,7 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
 
     let metadata = match fs::metadata(&path) {
         Ok(metadata) => metadata,
-        Err(err) => {
-            if let io::ErrorKind::NotFound = err.kind() {
-                return Response::from_status(StatusCode::NotFound);
-            }
-            return Response::from_status(StatusCode::InternalServerError);
-        }
+        Err(err) => return Response::from_status(status_for(&err)),
     };
 
     if !metadata.is_file() {
@@ -74,12 +69,7 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
 
     let content = match fs::File::open(&path) {
         Ok(content) => content,
-        Err(err) => {
-            if let io::ErrorKind::NotFound = err.kind() {
-                return Response::from_status(StatusCode::NotFound);
-            }
-            return Response::from_status(StatusCode::InternalServerError);
-        }
+        Err(err) => return Response::from_status(status_for(&err)),
     };
     let mime_type = mime_guess::from_path(path).first_or_octet_stream();
     let mut headers = Headers::new();
@@ -100,6 +90,18 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
     }
 }
 
+// The status to answer when a file can not be accessed.
+fn status_for(err: &io::Error) -> StatusCode {
+    match err.kind() {
+        // No file can have that path.
+        io::ErrorKind::NotFound
+        | io::ErrorKind::NotADirectory
+        | io::ErrorKind::InvalidInput
+        | io::ErrorKind::InvalidFilename => StatusCode::NotFound,
+        _ => StatusCode::InternalServerError,
+    }
+}
+
 /**
 A middleware that uses the log to print the request and response to
 the standard output with INFO level.
-- 
2.43.0


From 981a775c2f290dd865e571c90a96432ef84b44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 26/29] fix: do not stop the server when a signal interrupts
 its wait

---
 wruster/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index da7a47b..dffa108 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -360,7 +360,12 @@ impl Server {
         loop {
             debug!("tracked streams {}", active_streams.len());
             events.clear();
-            epoller.wait(&mut events, None)?;
+            if let Err(err) = epoller.wait(&mut events, None) {
+                // A signal interrupting the wait must not stop the server.
+                if err.kind() != ErrorKind::Interrupted {
+                    return Err(Box::new(err));
+                }
+            }
             for evt in &events {
                 if evt.key != 1 {
                     continue;
-- 
2.43.0


From 68e947bd9f156a34ad49e187a7f50bceb7be4c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 27/29] fix: return an error when the server can not listen for
 connections

---
 wruster/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index dffa108..8cafb3b 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -298,9 +298,9 @@ impl Server {
             Ok(listener) => listener,
             Err(err) => return Err(Box::new(err)),
         };
-        listener.set_nonblocking(true).unwrap();
-        let poller = polling::Poller::new().unwrap();
-        poller.add(&listener, Event::readable(1)).unwrap();
+        listener.set_nonblocking(true)?;
+        let poller = polling::Poller::new()?;
+        poller.add(&listener, Event::readable(1))?;
         let poller = Arc::new(poller);
         let epoller = Arc::clone(&poller);
         self.poller = Some(poller);
-- 
2.43.0


From ae40bf39f5262c743664ceaef2a67cf067c0380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 28/29] fix: do not reuse a client connection whose response
 body was taken away unread

---
 wruster/src/http/client/mod.rs | 43 +++++++++++++++++++---------------
 wruster/src/lib.rs             | 12 +++++-----
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index cd54027..0444ce9 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -1,9 +1,11 @@
 #![allow(missing_docs)]
+use std::cell::Cell;
 use std::net::SocketAddr;
 use std::net::TcpStream;
 use std::net::ToSocketAddrs;
 use std::ops::Deref;
 use std::ops::DerefMut;
+use std::rc::Rc;
 use std::sync::Mutex;
 use std::sync::{Arc, Weak};
 use std::time;
@@ -12,6 +14,7 @@ use connection_pool::{Pool, PoolResource};
 
 use crate::http::*;
 use crate::streams::timeout_stream::TimeoutStream;
+use crate::WatchedContent;
 
 mod connection_pool;
 
@@ -34,6 +37,7 @@ pub struct ClientResponse {
     conn: TcpStream,
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
+    unread: Rc<Cell<u64>>,
 }
 
 impl Deref for ClientResponse {
@@ -53,29 +57,18 @@ impl DerefMut for ClientResponse {
 impl Drop for ClientResponse {
     fn drop(&mut self) {
         if let Some(pool) = self.pool.upgrade() {
-            // A connection can only be reused if the other side keeps it open
-            // and the end of the response is known.
-            let headers = &self.response.headers;
-            let closed = match headers.get("Connection") {
-                None => false,
-                Some(values) => values[0].to_lowercase() == "close",
-            };
-            if closed || headers.get("Content-Length").is_none() {
-                return;
-            }
-
             if let Some(body) = self.response.body.as_mut() {
-                let read = body.ensure_read();
-                let complete = read.is_ok();
-                read.consume_error(|err| {
+                body.ensure_read().consume_error(|err| {
                     error!(
                         "error ensuring body in request has completely read: {}",
                         err
                     );
                 });
-                if !complete {
-                    return;
-                }
+            }
+            // The body can be truncated, or taken away from the response and
+            // not read to its end.
+            if self.unread.get() != 0 {
+                return;
             }
 
             let pool = match pool.lock() {
@@ -132,21 +125,33 @@ impl<'a> Client {
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
         let stream = Box::new(stream);
-        let response = match Response::read_from(stream) {
+        let mut response = match Response::read_from(stream) {
             Ok(response) => response,
             Err(err) => return Err(err),
         };
         // TODO: when the response does not have body we can just return back
         // the connection to the pool here.
         let response_pool = Arc::clone(&self.connection_pool);
+        // A connection can only be reused if both sides keep it open and the
+        // end of the response is known.
+        let closed = match response.headers.get("Connection") {
+            None => false,
+            Some(values) => values[0].to_lowercase() == "close",
+        };
+        let reusable = persistent && !closed && response.headers.get("Content-Length").is_some();
+        let unread = Rc::new(Cell::new(0));
+        if let Some(body) = response.body.as_mut() {
+            WatchedContent::watch(body, &unread);
+        }
         let response = ClientResponse {
             response,
             conn: response_conn,
-            pool: match persistent {
+            pool: match reusable {
                 true => Arc::downgrade(&response_pool),
                 false => Weak::new(),
             },
             addr: addr.to_string(),
+            unread,
         };
         Ok(response)
     }
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 8cafb3b..6f34a43 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -611,7 +611,7 @@ where
         Ok(mut request) => {
             connection_open = is_connection_persistent(&request);
             if let Some(body) = request.body.as_mut() {
-                RequestContent::watch(body, &unread);
+                WatchedContent::watch(body, &unread);
             }
             let response = run_action(&mut request, routes);
             (Some(request), response)
@@ -655,24 +655,24 @@ where
     connection_open && unread.get() == 0
 }
 
-/// The content of the body of a request, it counts the bytes not read yet.
-struct RequestContent {
+/// The content of the body of a message, it counts the bytes not read yet.
+struct WatchedContent {
     content: Box<dyn Read>,
     unread: Rc<Cell<u64>>,
 }
 
-impl RequestContent {
+impl WatchedContent {
     fn watch(body: &mut Body, unread: &Rc<Cell<u64>>) {
         unread.set(body.content_length);
         let content = mem::replace(&mut body.content, Box::new(io::empty()));
-        body.content = Box::new(RequestContent {
+        body.content = Box::new(WatchedContent {
             content,
             unread: Rc::clone(unread),
         });
     }
 }
 
-impl Read for RequestContent {
+impl Read for WatchedContent {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let n = self.content.read(buf)?;
         self.unread.set(self.unread.get().saturating_sub(n as u64));
-- 
2.43.0


From 2be8495f9476af339c8261626873a6e9add4a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:05 +0000
Subject: [PATCH 29/29] hook: give the verification harness the bytes of a
 private key

---
 wruster/src/streams/tls/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 4077332..0048568 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -228,3 +228,9 @@ impl Clone for PrivateKey {
         Self(self.0.clone())
     }
 }
+
+#[cfg(wruster_verif)]
+#[allow(missing_docs)]
+pub fn private_key_bytes(key: &PrivateKey) -> &[u8] {
+    &key.0 .0
+}
-- 
2.43.0

