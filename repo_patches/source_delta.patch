From dae07a7080de62313146726100ee13ebebaf199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:34 +0000
Subject: [PATCH 01/57] fix: reject a header line without a colon instead of
 panicking

A header line made only of token characters made parse_header_line index
past the end of the line, which killed the worker thread.
---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 51e3f52..d43b902 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -277,7 +277,7 @@ impl Header {
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
         // After the token we MUST receive a colon.
-        if line[i] != b':' {
+        if line.get(i) != Some(&b':') {
             error!(
                 "invalid header line: {}, missing semicolon",
                 String::from_utf8_lossy(line)
-- 
2.43.0


From 24021d400096d5ee62ba8479b8328ba3c5694f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:34 +0000
Subject: [PATCH 02/57] fix: do not loop forever when the input ends inside the
 headers

---
 wruster/src/http/headers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index d43b902..64ade1e 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -228,8 +228,12 @@ impl Header {
         let mut line = Vec::<u8>::new();
         loop {
             let mut header_chunk = Vec::<u8>::new();
-            from.read_until(b'\n', &mut header_chunk)
+            let read = from
+                .read_until(b'\n', &mut header_chunk)
                 .map_err(HttpError::from)?;
+            if read == 0 {
+                return Err(InvalidRequest("unexpected end of headers".to_string()));
+            }
             line.append(&mut header_chunk);
             debug!("header chunk read: {}", String::from_utf8_lossy(&line));
             let len = line.len();
-- 
2.43.0


From f0e0504439994c328bb2229d707b72d54d80fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:34 +0000
Subject: [PATCH 03/57] fix: treat header names as case insensitive

CONTENT-LENGTH or transfer-ENCODING were stored under a name nobody looks
up, so the body of such a request was taken for the next request.
---
 wruster/src/http/headers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 64ade1e..be5921d 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -107,10 +107,17 @@ impl Headers {
     pub fn add(&mut self, header: Header) {
         let name = header.name;
         let content = header.value;
+        let name = self.find_name(&name).cloned().unwrap_or(name);
         let values = self.headers.entry(name).or_default();
         values.push(content);
     }
 
+    /// Returns the name, as it was added, that is equal to the given one
+    /// ignoring the case.
+    fn find_name(&self, name: &str) -> Option<&String> {
+        self.headers.keys().find(|k| k.eq_ignore_ascii_case(name))
+    }
+
     /**
     Returns the values of a header given its name.
 
@@ -135,7 +142,7 @@ impl Headers {
     ```
     */
     pub fn get(&self, name: &str) -> Option<&Vec<String>> {
-        self.headers.get(name)
+        self.headers.get(self.find_name(name)?)
     }
 
     /**
@@ -397,7 +404,7 @@ fn normalize_header_name(name: String) -> String {
         if c == char::from(b' ') || c == char::from(b'-') {
             next_alfanum_upper = true;
         }
-        normalized.push(c);
+        normalized.push(c.to_ascii_lowercase());
     }
     normalized
 }
-- 
2.43.0


From 0d5857ba2957970e19cf87abab37ab6082be9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:34 +0000
Subject: [PATCH 04/57] fix: accept empty header values and drop trailing white
 space

https://datatracker.ietf.org/doc/html/rfc7230#section-3.2: the field value
can be empty and does not include the surrounding white space.
---
 wruster/src/http/headers.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index be5921d..5800b5d 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -295,16 +295,7 @@ impl Header {
             );
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
-        // The header value must have at least one octed.
         let mut header_value_start = i + 1;
-        let header_value_length = line.len() - header_value_start;
-        if header_value_length < 1 {
-            debug!(
-                "invalid header value line: {}",
-                String::from_utf8_lossy(line)
-            );
-            return Err(InvalidRequest("invalid header name value".to_string()));
-        };
         // We don't support folding so the field-value = field-content.
         let mut field_value = String::new();
         // Skip the initial optional white space if any.
@@ -313,7 +304,14 @@ impl Header {
             j += 1;
         }
         header_value_start = j;
-        for j in header_value_start..line.len() {
+        // Skip the final optional white space if any.
+        let mut header_value_end = line.len();
+        while header_value_end > header_value_start
+            && (line[header_value_end - 1] as char).is_optional_white_space()
+        {
+            header_value_end -= 1;
+        }
+        for j in header_value_start..header_value_end {
             let c = line[j] as char;
             if !c.is_valid_field_content() {
                 debug!(
-- 
2.43.0


From 831e138c4d01bcc6028dee44dbc4f2afdab4666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:49 +0000
Subject: [PATCH 05/57] fix: read non ASCII header values as they are written

---
 wruster/src/http/headers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 5800b5d..ae0ac2c 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -297,7 +297,7 @@ impl Header {
         };
         let mut header_value_start = i + 1;
         // We don't support folding so the field-value = field-content.
-        let mut field_value = String::new();
+        let mut field_value = Vec::new();
         // Skip the initial optional white space if any.
         let mut j = header_value_start;
         while j < line.len() && (line[j] as char).is_optional_white_space() {
@@ -322,8 +322,14 @@ impl Header {
                 );
                 return Err(InvalidRequest("invalid header name value".to_string()));
             }
-            field_value.push(c);
+            field_value.push(line[j]);
         }
+        // Header values are written as UTF-8, so read them as UTF-8 too, unless
+        // they are not valid UTF-8, in that case each octet is a char.
+        let field_value = match String::from_utf8(field_value) {
+            Ok(value) => value,
+            Err(err) => err.as_bytes().iter().map(|b| *b as char).collect(),
+        };
         name = normalize_header_name(name);
         let header = Header {
             name,
-- 
2.43.0


From 24bcc086f4d2fc41c1555bb5f15e5102e8f04cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:49 +0000
Subject: [PATCH 06/57] fix: write the whole start line when the destination
 accepts less bytes

---
 wruster/src/http/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index a08d922..de02306 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -291,7 +291,7 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
         let line = format!("{:#} {} {}\r\n", self.method, self.uri, self.version);
-        to.write(line.as_bytes()).map_err(HttpError::from)?;
+        to.write_all(line.as_bytes()).map_err(HttpError::from)?;
         Ok(())
     }
 }
@@ -826,7 +826,7 @@ impl HttpResponseLine {
         // https://datatracker.ietf.org/doc/html/rfc7230#section-3.1.2
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
-        if let Err(err) = to.write(payload.as_bytes()) {
+        if let Err(err) = to.write_all(payload.as_bytes()) {
             return Err(HttpError::Unknown(err.to_string()));
         };
         Ok(())
-- 
2.43.0


From 7d78acb3e8e65f617375529eef1e57c1e1b4447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:49 +0000
Subject: [PATCH 07/57] fix: reject control characters in the request target

A line break in the target is not part of a well formed request line, and
handlers that put the target in a response header end up splitting it.
---
 wruster/src/http/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index de02306..2d71ee9 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -266,7 +266,11 @@ impl HttpRequestLine {
             return Err(InvalidRequest("invalid request line".to_string()));
         };
 
-        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);
+        let uri = &uri[..uri.len() - 1];
+        if uri.iter().any(|c| c.is_ascii_control()) {
+            return Err(InvalidRequest("invalid request target".to_string()));
+        }
+        let uri = String::from_utf8_lossy(uri);
 
         let mut version = Vec::new();
         from.read_until(b'\n', &mut version)
@@ -275,7 +279,7 @@ impl HttpRequestLine {
             return Err(InvalidRequest("invalid request line".to_string()));
         };
 
-        if version[version.len() - 2] != (b'\r') {
+        if !version.ends_with(b"\r\n") {
             return Err(InvalidRequest("invalid request line".to_string()));
         }
         let version = String::from_utf8_lossy(&version[..version.len() - 2]);
-- 
2.43.0


From 9e2618231180cb7145620e5605d3bc577c79919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:49 +0000
Subject: [PATCH 08/57] fix: reject requests whose HTTP version is not well
 formed

---
 wruster/src/http/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 2d71ee9..20cebea 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -283,6 +283,10 @@ impl HttpRequestLine {
             return Err(InvalidRequest("invalid request line".to_string()));
         }
         let version = String::from_utf8_lossy(&version[..version.len() - 2]);
+        if Version::from_str(&version).is_err() {
+            HttpResponseLine::validate_version(&version)
+                .map_err(|err| InvalidRequest(err.to_string()))?;
+        }
 
         Ok(HttpRequestLine {
             method,
-- 
2.43.0


From ffbf56d6b39e8797d9f52cf032a4aec0404fc544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:49 +0000
Subject: [PATCH 09/57] fix: accept only digits in Content-Length

---
 wruster/src/http/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 20cebea..b974ddb 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -441,6 +441,11 @@ impl Body {
             }
         };
 
+        // usize::from_str also accepts a plus sign.
+        if !len.bytes().all(|c| c.is_ascii_digit()) {
+            let msg = format!("invalid Content-Length header, {}", len);
+            return Err(Unknown(msg));
+        }
         let len = match usize::from_str(len) {
             Err(err) => {
                 let msg = format!("invalid Content-Length header, {}", err);
-- 
2.43.0


From 395966eb9cc010a3ba54d25842ec4b06b7953906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:10 +0000
Subject: [PATCH 10/57] fix: do not accept a plus sign in the HTTP version

---
 wruster/src/http/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index b974ddb..dbb973a 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -815,7 +815,8 @@ impl HttpResponseLine {
         };
 
         let digits_parts: Vec<&str> = parts[1].split('.').collect();
-        if digits_parts.len() != 2 {
+        // u8::from_str also accepts a plus sign.
+        if digits_parts.len() != 2 || parts[1].contains('+') {
             return Err(Unknown(format!("invalid http version: {}", version)));
         }
 
-- 
2.43.0


From 361005f2659839f07416922635ae9ac5759cf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:10 +0000
Subject: [PATCH 11/57] fix: reading a body cut short is an error

When the connection was closed before the whole body was received, the part
received was presented as if it was the complete body.
---
 wruster/src/http/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index dbb973a..2fe54b4 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -473,8 +473,10 @@ impl Body {
                 Some(mtype)
             }
         };
-        let c = from.take(len as u64);
-        let content = Box::new(c);
+        let content = Box::new(ExactReader {
+            from,
+            remaining: len as u64,
+        });
         let body = Body {
             content,
             content_type,
@@ -513,6 +515,28 @@ impl Body {
     }
 }
 
+/// Reads exactly ``remaining`` bytes from a reader, it returns an error if the
+/// reader ends before.
+struct ExactReader<T: io::Read> {
+    from: T,
+    remaining: u64,
+}
+
+impl<T: io::Read> Read for ExactReader<T> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let max = buf.len().min(self.remaining.try_into().unwrap_or(usize::MAX));
+        if max == 0 {
+            return Ok(0);
+        }
+        let bytes_read = self.from.read(&mut buf[..max])?;
+        if bytes_read == 0 {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+        }
+        self.remaining -= bytes_read as u64;
+        Ok(bytes_read)
+    }
+}
+
 impl Read for Body {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         match self.content.read(buf) {
-- 
2.43.0


From 7bf601ed33a6695d12ddf378d0a3be1c46698eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:10 +0000
Subject: [PATCH 12/57] fix: write exactly content_length bytes of a body

A source with more bytes than announced was written whole, a source with less
was not an error, and the error of the last flush of the buffer was lost. In
all the cases the peer lost track of where the message ends.
---
 wruster/src/http/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 2fe54b4..5981461 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -376,7 +376,7 @@ impl Body {
     to the ``to`` paramerer.
     */
     pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
-        let src = &mut self.content;
+        let src = &mut self.content.by_ref().take(self.content_length);
 
         // When the content to write is large (>2MB's) the io::copy function
         // uses buffers that are too short, to avoid that we use this technique:
@@ -386,12 +386,16 @@ impl Body {
             x if x > u64::pow(2, 20) * 2 => {
                 let buff_size = usize::pow(2, 20);
                 let mut dest = BufWriter::with_capacity(buff_size, to);
-                io::copy(src, &mut dest)
+                io::copy(src, &mut dest).and_then(|n| dest.flush().map(|_| n))
             }
             _ => io::copy(src, to),
         };
         match res {
             Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Ok(n) if n < self.content_length => Err(HttpError::Unknown(format!(
+                "the body ended after {} bytes of {}",
+                n, self.content_length
+            ))),
             Ok(_) => Ok(()),
         }
     }
-- 
2.43.0


From 1fb2eb65d51641f6d5cc3ec4fd6bfeea581b4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:35 +0000
Subject: [PATCH 13/57] fix: always write exactly one Content-Length in a
 response

The responses created from a string had none, so clients of a persistent
connection waited for the end of the body until the connection timed out, and
the ones with no body that already had the header got a second one.
---
 wruster/src/http/headers.rs |  7 +++++++
 wruster/src/http/mod.rs     | 14 ++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index ae0ac2c..aee1130 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -112,6 +112,13 @@ impl Headers {
         values.push(content);
     }
 
+    /// Removes all the values of a header given its name.
+    pub(crate) fn remove(&mut self, name: &str) {
+        if let Some(name) = self.find_name(name).cloned() {
+            self.headers.remove(&name);
+        }
+    }
+
     /// Returns the name, as it was added, that is equal to the given one
     /// ignoring the case.
     fn find_name(&self, name: &str) -> Option<&String> {
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 5981461..e70bf7b 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -659,12 +659,14 @@ impl Response {
             reason_phrase: self.status.clone().into(),
         };
         start_line.write(to)?;
-        if self.body.is_none() {
-            self.headers.add(Header {
-                name: String::from("Content-Length"),
-                value: String::from("0"),
-            })
-        }
+        // The length in the headers is always the one of the body that is
+        // going to be written.
+        let content_length = self.body.as_ref().map_or(0, |body| body.content_length);
+        self.headers.remove("Content-Length");
+        self.headers.add(Header {
+            name: String::from("Content-Length"),
+            value: content_length.to_string(),
+        });
         self.headers.write(to)?;
         match self.body.as_mut() {
             Some(body) => body.write(to).map_err(HttpError::from),
-- 
2.43.0


From acd8f88d4101cf45011771e54ac7607690509601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:36 +0000
Subject: [PATCH 14/57] fix: recognise the Connection options in any position
 of the header

---
 wruster/src/http/mod.rs | 18 ++++++++++++------
 wruster/src/lib.rs      | 24 +-----------------------
 2 files changed, 13 insertions(+), 29 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index e70bf7b..8fb7c97 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -188,11 +188,8 @@ impl Request {
 
     */
     pub fn is_connection_persistent(&self) -> bool {
-        let value = match self.headers.get("Connection") {
-            None => "".to_string(),
-            Some(values) => values[0].to_lowercase(),
-        };
-        if value == "close" {
+        let has_option = |option: &str| has_connection_option(&self.headers, option);
+        if has_option("close") {
             return false;
         }
 
@@ -200,13 +197,22 @@ impl Request {
             return true;
         };
 
-        if self.version == "HTTP/1.0" && value == "keep-alive" {
+        if self.version == "HTTP/1.0" && has_option("keep-alive") {
             return true;
         };
         false
     }
 }
 
+/// Returns true if any of the comma separated values of the Connection headers
+/// is the given option: https://datatracker.ietf.org/doc/html/rfc7230#section-6.1.
+fn has_connection_option(headers: &Headers, option: &str) -> bool {
+    let values = headers.get("Connection").into_iter().flatten();
+    values
+        .flat_map(|value| value.split(','))
+        .any(|value| value.trim().eq_ignore_ascii_case(option))
+}
+
 /// Converts an immutable reference to a Request given [``mime::Mime``] type, a
 /// [``HttpMethod``] and a url.
 pub trait IntoRequest {
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index a14071f..cd18085 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -591,7 +591,7 @@ where
 
     let (request, mut response) = match Request::read_from(timeout_stream) {
         Ok(mut request) => {
-            connection_open = is_connection_persistent(&request);
+            connection_open = request.is_connection_persistent();
             let response = run_action(&mut request, routes);
             (Some(request), response)
         }
@@ -654,25 +654,3 @@ fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
     request.uri = String::from(normalized);
     action(request)
 }
-
-/**
-Evaluates if a request requires a connection to be [persistent](https://httpwg.org/specs/rfc7230.html#rfc.section.6.3).
-*/
-fn is_connection_persistent(request: &http::Request) -> bool {
-    let value = match request.headers.get("Connection") {
-        None => "".to_string(),
-        Some(values) => values[0].to_lowercase(),
-    };
-    if value == "close" {
-        return false;
-    }
-
-    if request.version == "HTTP/1.1" || request.version == "HTTP/2" {
-        return true;
-    };
-
-    if request.version == "HTTP/1.0" && value == "keep-alive" {
-        return true;
-    };
-    false
-}
-- 
2.43.0


From 8bfd3b6a7c30c046fba7f35db6b205cf79e00d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:07 +0000
Subject: [PATCH 15/57] fix: do not write a second Content-Length in a request
 without body

---
 wruster/src/http/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 8fb7c97..6b6e2c1 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -135,6 +135,7 @@ impl Request {
 
         start_line.write(to)?;
         if self.body.is_none() {
+            self.headers.remove("Content-Length");
             self.headers.add(Header {
                 name: String::from("Content-Length"),
                 value: String::from("0"),
-- 
2.43.0


From afdd07937d040055a8f3b8925832f93c410b17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 16/57] fix: limit the size of the head of the messages read

The line of a request, or of a header, was read into memory with no limit, so
one client sending a line that never ends exhausted the memory of the server.
---
 wruster/src/http/headers.rs | 11 ++++-------
 wruster/src/http/mod.rs     | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index aee1130..748636f 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -2,7 +2,6 @@ use std::collections::HashMap;
 use std::fmt;
 use std::fmt::Debug;
 use std::io;
-use std::io::prelude::*;
 
 use super::errors::HttpError::InvalidRequest;
 use super::errors::*;
@@ -59,7 +58,7 @@ impl Headers {
     }
 
     /**
-    Reads the headers from an HTTP message in a [`io::BufReader`] according to
+    Reads the headers from an HTTP message in a [`io::BufRead`] according to
     the spec: <https://datatracker.ietf.org/doc/html/rfc7230>.
 
     # Errors
@@ -67,7 +66,7 @@ impl Headers {
     Returns a [`HttpError`] if the header does not conform to the spec: <https://datatracker.ietf.org/doc/html/rfc7230>
     or there is any problem reading from the ``to``parameter.
     */
-    pub fn read_from<T: io::Read>(from: &mut io::BufReader<T>) -> Result<Headers, HttpError> {
+    pub fn read_from<T: io::BufRead>(from: &mut T) -> Result<Headers, HttpError> {
         let mut headers = Self::new();
         // generic-message = start-line
         //                   *(message-header CRLF)
@@ -219,7 +218,7 @@ pub struct Header {
 
 impl Header {
     /**
-    Reads an header from an HTTP message in a [`io::BufReader`] according to
+    Reads an header from an HTTP message in a [`io::BufRead`] according to
     the spec: <https://datatracker.ietf.org/doc/html/rfc7230>.
 
     # Examples
@@ -231,9 +230,7 @@ impl Header {
     Returns a [`HttpError`] if the header does not conform to the spec:
     <https://datatracker.ietf.org/doc/html/rfc7230>.
     */
-    pub fn read_from<T: io::Read>(
-        from: &mut io::BufReader<T>,
-    ) -> Result<Option<Header>, HttpError> {
+    pub fn read_from<T: io::BufRead>(from: &mut T) -> Result<Option<Header>, HttpError> {
         //generic-message = start-line
         //                  *(message-header CRLF)
         //                   CRLF
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 6b6e2c1..570a9bd 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -31,6 +31,10 @@ mod tests;
 /// Defines the results returned by the methods and functions of this module.
 pub type HttpResult<T> = Result<T, HttpError>;
 
+/// Defines the max size, in bytes, of the start line and the headers of a
+/// message that is read, a message with a bigger head is considered invalid.
+const MAX_HEAD_SIZE: u64 = 1 << 20;
+
 /// Represents a Http Request.
 #[derive(Debug)]
 pub struct Request {
@@ -63,12 +67,13 @@ impl Request {
     pub fn read_from<T: io::Read + 'static>(from: T) -> HttpResult<Request> {
         debug!("parsing request");
         let mut reader = io::BufReader::new(from);
-        let request_line = match HttpRequestLine::read_from(&mut reader) {
+        let mut head = reader.by_ref().take(MAX_HEAD_SIZE);
+        let request_line = match HttpRequestLine::read_from(&mut head) {
             Ok(request) => request,
             Err(err) => return Err(err),
         };
         debug!("request line parsed: {:?}", request_line);
-        let headers = Headers::read_from(&mut reader)?;
+        let headers = Headers::read_from(&mut head)?;
         debug!("headers parsed: {:?}", headers);
 
         let body = Body::read_from(reader, &headers)?;
@@ -245,7 +250,7 @@ struct HttpRequestLine {
 }
 
 impl HttpRequestLine {
-    fn read_from<T: io::Read>(from: &mut io::BufReader<T>) -> Result<HttpRequestLine, HttpError> {
+    fn read_from<T: io::BufRead>(from: &mut T) -> Result<HttpRequestLine, HttpError> {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
 
@@ -747,10 +752,11 @@ impl Response {
         //                    [ message-body ]
         debug!("parsing response");
         let mut reader = io::BufReader::new(from);
-        let status_line = HttpResponseLine::read_from(&mut reader)?;
+        let mut head = reader.by_ref().take(MAX_HEAD_SIZE);
+        let status_line = HttpResponseLine::read_from(&mut head)?;
         debug!("response status line parsed: {:?}", status_line);
 
-        let headers = Headers::read_from(&mut reader)?;
+        let headers = Headers::read_from(&mut head)?;
         debug!("headers parsed: {:?}", headers);
 
         let body = Body::read_from(reader, &headers)?;
@@ -792,7 +798,7 @@ struct HttpResponseLine {
 }
 
 impl HttpResponseLine {
-    fn read_from<T: io::Read>(from: &mut io::BufReader<T>) -> Result<HttpResponseLine, HttpError> {
+    fn read_from<T: io::BufRead>(from: &mut T) -> Result<HttpResponseLine, HttpError> {
         // Status-Line = HTTP-Version SP Status-Code SP Reason-Phrase CRLF
         let mut http_version = Vec::new();
         if let Err(err) = from.read_until(b' ', &mut http_version) {
-- 
2.43.0


From d5661f24471c45e2b388ee8669c8b6273e256676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:33 +0000
Subject: [PATCH 17/57] fix: serve pipelined requests, never lose or misread
 the bytes of the next request

A new buffer was created for each request of a connection, so the bytes that
it held when the request ended, the start of the next request, were lost. And
when the handler moved the body out of the request the rest of the body was
taken for the next request.
---
 wruster/src/http/mod.rs               | 74 ++++++++++++++++++++++++++-
 wruster/src/lib.rs                    | 20 ++++++--
 wruster/src/streams/timeout_stream.rs |  6 +++
 3 files changed, 94 insertions(+), 6 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 570a9bd..91c0da3 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -1,8 +1,10 @@
+use std::cell::{Cell, RefCell};
 use std::convert::Infallible;
 use std::fmt;
 use std::fmt::Debug;
 use std::io::{self, BufReader, BufWriter};
 use std::io::{prelude::*, Cursor};
+use std::rc::Rc;
 use std::str::FromStr;
 
 /// Contains the definition of the errors used in the Http module.
@@ -65,8 +67,13 @@ impl Request {
     does not conform to the spec: https://datatracker.ietf.org/doc/html/rfc7230.
     */
     pub fn read_from<T: io::Read + 'static>(from: T) -> HttpResult<Request> {
-        debug!("parsing request");
         let mut reader = io::BufReader::new(from);
+        let (request_line, headers) = Self::read_head(&mut reader)?;
+        Self::from_head(request_line, headers, reader)
+    }
+
+    fn read_head<T: io::BufRead>(reader: &mut T) -> HttpResult<(HttpRequestLine, Headers)> {
+        debug!("parsing request");
         let mut head = reader.by_ref().take(MAX_HEAD_SIZE);
         let request_line = match HttpRequestLine::read_from(&mut head) {
             Ok(request) => request,
@@ -75,7 +82,14 @@ impl Request {
         debug!("request line parsed: {:?}", request_line);
         let headers = Headers::read_from(&mut head)?;
         debug!("headers parsed: {:?}", headers);
+        Ok((request_line, headers))
+    }
 
+    fn from_head<T: io::Read + 'static>(
+        request_line: HttpRequestLine,
+        headers: Headers,
+        reader: T,
+    ) -> HttpResult<Request> {
         let body = Body::read_from(reader, &headers)?;
         debug!("body read: {:?}", body);
 
@@ -219,6 +233,64 @@ fn has_connection_option(headers: &Headers, option: &str) -> bool {
         .any(|value| value.trim().eq_ignore_ascii_case(option))
 }
 
+/// Reads, one after another, the requests received through a connection. The
+/// bytes already received that belong to the next requests are kept.
+pub(crate) struct RequestReader<T: io::Read> {
+    reader: Rc<RefCell<BufReader<T>>>,
+    pending_body: Rc<Cell<u64>>,
+}
+
+impl<T: io::Read + 'static> RequestReader<T> {
+    pub(crate) fn new(from: T) -> Self {
+        RequestReader {
+            reader: Rc::new(RefCell::new(BufReader::new(from))),
+            pending_body: Rc::new(Cell::new(0)),
+        }
+    }
+
+    /// Reads the next request, the body of the previous one, if any, must have
+    /// been read or discarded.
+    pub(crate) fn read_request(&mut self) -> HttpResult<Request> {
+        let (request_line, headers) = Request::read_head(&mut *self.reader.borrow_mut())?;
+        let body = RequestReader {
+            reader: Rc::clone(&self.reader),
+            pending_body: Rc::new(Cell::new(0)),
+        };
+        self.pending_body = Rc::clone(&body.pending_body);
+        let request = Request::from_head(request_line, headers, body)?;
+        let content_length = request.body.as_ref().map_or(0, |body| body.content_length);
+        self.pending_body.set(content_length);
+        Ok(request)
+    }
+
+    /// Reads, and discards, the part of the body of the last request that has
+    /// not been read yet.
+    pub(crate) fn discard_body(&mut self) -> HttpResult<()> {
+        let pending = self.pending_body.get();
+        match io::copy(&mut self.take(pending), &mut io::sink()) {
+            Ok(n) if n < pending => Err(ConnectionClosed),
+            Ok(_) => Ok(()),
+            Err(err) => Err(HttpError::from(err)),
+        }
+    }
+
+    /// Calls the given function with the underlying reader.
+    pub(crate) fn with_inner<F: FnOnce(&mut T)>(&mut self, f: F) {
+        f(self.reader.borrow_mut().get_mut())
+    }
+}
+
+impl<T: io::Read> Read for RequestReader<T> {
+    // Reads the body of the last request.
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let pending = self.pending_body.get();
+        let max = buf.len().min(pending.try_into().unwrap_or(usize::MAX));
+        let bytes_read = self.reader.borrow_mut().read(&mut buf[..max])?;
+        self.pending_body.set(pending - bytes_read as u64);
+        Ok(bytes_read)
+    }
+}
+
 /// Converts an immutable reference to a Request given [``mime::Mime``] type, a
 /// [``HttpMethod``] and a url.
 pub trait IntoRequest {
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index cd18085..0c5bb77 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -551,11 +551,17 @@ fn handle_conversation<T>(
     T: Stream + 'static,
 {
     debug!("handling conversation with {}", source_addr);
+    let read_timeout = Some(timeouts.read_request_timeout);
+    let write_timeout = Some(timeouts.write_response_timeout);
+    let timeout_stream = TimeoutStream::from(stream.clone(), read_timeout, write_timeout);
+    let mut requests = RequestReader::new(timeout_stream);
     let mut connection_open = true;
     while connection_open {
         let handle_stream = stream.clone();
+        requests.with_inner(TimeoutStream::restart);
         connection_open = handle_connection(
             handle_stream,
+            &mut requests,
             Arc::clone(&routes),
             source_addr,
             timeouts.clone(),
@@ -574,7 +580,8 @@ fn handle_conversation<T>(
 }
 
 fn handle_connection<T>(
-    stream: ObservedStream<T>,
+    resp_stream: ObservedStream<T>,
+    requests: &mut RequestReader<TimeoutStream<ObservedStream<T>>>,
     routes: Arc<Router>,
     source_addr: SocketAddr,
     timeouts: Timeouts,
@@ -586,10 +593,7 @@ where
     let read_timeout = Some(timeouts.read_request_timeout);
     let write_timeout = Some(timeouts.write_response_timeout);
 
-    let resp_stream = stream.clone();
-    let timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
-
-    let (request, mut response) = match Request::read_from(timeout_stream) {
+    let (request, mut response) = match requests.read_request() {
         Ok(mut request) => {
             connection_open = request.is_connection_persistent();
             let response = run_action(&mut request, routes);
@@ -629,6 +633,12 @@ where
         );
         return false;
     };
+
+    // The handler can have moved the request body out of the request.
+    if let Err(err) = requests.discard_body() {
+        error!("error discarding request body, error info: {}", err);
+        return false;
+    }
     connection_open
 }
 
diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 115b2b0..3cd4d7c 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -89,6 +89,12 @@ where
             write: write_timeout,
         }
     }
+
+    /// Gives again the whole timeouts to the next operations.
+    pub fn restart(&mut self) {
+        self.ongoing_read = None;
+        self.ongoing_write = None;
+    }
 }
 
 impl<T> Read for TimeoutStream<T>
-- 
2.43.0


From c24702f1b1858384fd85b34c4aa2124c683c1e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 18/57] fix: do not send a body in the responses to HEAD
 requests

A client never reads a body after the response to a HEAD request, so it took
the body for the response to its next request.
---
 wruster/src/http/mod.rs | 15 ++++++++++-----
 wruster/src/lib.rs      |  9 ++++++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 91c0da3..45de359 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -737,6 +737,15 @@ impl Response {
     to the ``to`` paramerer.
     */
     pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
+        self.write_head(to)?;
+        match self.body.as_mut() {
+            Some(body) => body.write(to).map_err(HttpError::from),
+            None => Ok(()),
+        }
+    }
+
+    /// Writes the status line and the headers, but not the body.
+    pub(crate) fn write_head<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
         let mut start_line = HttpResponseLine {
             http_version: Version::HTTP1_1.to_string(),
             status_code: self.status.clone(),
@@ -751,11 +760,7 @@ impl Response {
             name: String::from("Content-Length"),
             value: content_length.to_string(),
         });
-        self.headers.write(to)?;
-        match self.body.as_mut() {
-            Some(body) => body.write(to).map_err(HttpError::from),
-            None => Ok(()),
-        }
+        self.headers.write(to)
     }
 
     /// Creates a Request with the given http [``StatusCode``].
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 0c5bb77..1ea9bc2 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -613,6 +613,9 @@ where
         },
     };
 
+    // The response to a HEAD request never has a body.
+    let only_head = matches!(&request, Some(request) if request.method == HttpMethod::HEAD);
+
     // Ensure the request body (if any) is read.
     if let Some(mut request) = request {
         let body = request.body.as_mut();
@@ -626,7 +629,11 @@ where
 
     // Write the response.
     let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
-    if let Err(err) = response.write(&mut timeout_stream) {
+    let written = match only_head {
+        true => response.write_head(&mut timeout_stream),
+        false => response.write(&mut timeout_stream),
+    };
+    if let Err(err) = written {
         error!(
             "error writing response to: {}, error info: {}",
             source_addr, err
-- 
2.43.0


From 3ab6c43f223c1f4411e648177b026dcca7274d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:57 +0000
Subject: [PATCH 19/57] fix: do not truncate to seconds the time elapsed in the
 operations with timeout

A client sending one byte each half a second was never timed out, and a
timeout below one second made all the operations fail immediately.
---
 wruster/src/streams/timeout_stream.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 3cd4d7c..9d1d394 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -119,7 +119,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = read.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         let stream = &self.stream;
@@ -163,7 +163,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = write.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {
@@ -191,7 +191,7 @@ where
 struct Operation {
     timeout: Duration,
     started: Option<Instant>,
-    elapsed_secs: u64,
+    elapsed: Duration,
 }
 
 impl Operation {
@@ -199,17 +199,12 @@ impl Operation {
         Operation {
             timeout,
             started: None,
-            elapsed_secs: 0,
+            elapsed: Duration::ZERO,
         }
     }
 
     fn next_timeout(&mut self) -> Duration {
-        if self.elapsed_secs >= self.timeout.as_secs() {
-            Duration::from_secs(0)
-        } else {
-            let remaining = self.timeout.as_secs() - self.elapsed_secs;
-            Duration::from_secs(remaining)
-        }
+        self.timeout.saturating_sub(self.elapsed)
     }
 
     fn start(&mut self) {
@@ -218,8 +213,7 @@ impl Operation {
 
     fn stop(&mut self) {
         if let Some(started) = self.started {
-            let elapsed = started.elapsed().as_secs();
-            self.elapsed_secs += elapsed;
+            self.elapsed += started.elapsed();
         } else {
             println!("operation not initialized stopped");
         }
-- 
2.43.0


From 62e7e9181042ce4ed9393488f947ff490ab534d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 20/57] fix: read the data already received before waiting for
 more

When a TLS record carries more data than the reader asks for, the rest stays
in the TLS session. Waiting for the socket to be readable before reading it
blocked until the timeout. Also keep waiting when the wait is interrupted.
---
 wruster/src/streams/cancellable_stream.rs | 88 ++++++++++-------------
 1 file changed, 39 insertions(+), 49 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 52d1b52..9718449 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -5,7 +5,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc, RwLock,
     },
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use polling::Event;
@@ -57,63 +57,53 @@ where
         self.stream.shutdown(how)
     }
 
-    fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
-        self.poller
-            .modify(self.stream.as_raw(), Event::readable(1))?;
+    /// Waits until the stream is ready to perform the given operation.
+    fn wait(&self, event: Event, deadline: Option<Instant>) -> io::Result<()> {
         let mut events = Vec::new();
-        let timeout = &self.read_timeout.write().unwrap().clone();
-        let mut bytes_read = 0;
-        let buf_len = buf.len();
-        if self.poller.wait(&mut events, *timeout)? == 0 {
-            let stop = self.done.load(atomic::Ordering::SeqCst);
-            if stop {
-                return Err(io::Error::from(io::ErrorKind::NotConnected));
+        loop {
+            let timeout = deadline.map(|d| d.saturating_duration_since(Instant::now()));
+            events.clear();
+            self.poller.modify(self.stream.as_raw(), event)?;
+            match self.poller.wait(&mut events, timeout) {
+                Ok(0) => (),
+                Ok(_) => return Ok(()),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+                Err(err) => return Err(err),
             };
-            // TODO: Actually we could be here not only because the timeout
-            // passed without read operations available, but also because the
-            // OS returned no events spuriously, so we should check ourselves
-            // if the timeout period has passed, and if not, retry the wait.
-            return Err(io::Error::from(io::ErrorKind::TimedOut));
-        }
-        for evt in &events {
-            if evt.key != 1 {
-                continue;
+            // We could be here not only because the timeout passed, but also
+            // because the wait was interrupted or the OS returned no events
+            // spuriously, in those cases we must retry the wait.
+            if deadline.map_or(false, |d| d <= Instant::now()) {
+                let stop = self.done.load(atomic::Ordering::SeqCst);
+                if stop {
+                    return Err(io::Error::from(io::ErrorKind::NotConnected));
+                };
+                return Err(io::Error::from(io::ErrorKind::TimedOut));
             }
-            let read_buf = &mut buf[bytes_read..];
-            let s = &self.stream;
+        }
+    }
 
-            let result = match s.read_buf(read_buf) {
+    fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+        let timeout = *self.read_timeout.read().unwrap();
+        let deadline = timeout.and_then(|t| Instant::now().checked_add(t));
+        loop {
+            // Read before waiting: the stream could hold data, for instance
+            // already decrypted, that the poller doesn't know about.
+            match self.stream.read_buf(buf) {
                 Ok(0) if self.done.load(Ordering::SeqCst) => {
-                    Err(io::Error::from(io::ErrorKind::NotConnected))
-                }
-                Ok(n) => Ok(n),
-                Err(err) => Err(err),
-            };
-            match result {
-                Ok(n) => {
-                    bytes_read += n;
-                }
-                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
-                    // If we are unable to read anything we signal the reader
-                    // that is safe to retry the operation by returning and
-                    // error of kind: Interrupted. Reference:
-                    // https://doc.rust-lang.org/std/io/trait.Read.html#errors.
-                    return Err(io::Error::from(io::ErrorKind::Interrupted));
+                    return Err(io::Error::from(io::ErrorKind::NotConnected))
                 }
+                Ok(0) => return Err(io::Error::from(io::ErrorKind::ConnectionReset)),
+                Ok(n) => return Ok(n),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                Err(err) if err.kind() == io::ErrorKind::WouldBlock => (),
                 Err(err) => return Err(err),
             };
-            // TODO: Actually this is not correct, we should read all the
-            // events returned by wait, even if we end up reading more bytes
-            // than the len of the buffer provide by the caller.
-            if bytes_read == buf_len {
-                break;
-            }
-        }
-
-        if bytes_read == 0 {
-            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
+            self.wait(Event::readable(1), deadline)?;
         }
-        Ok(bytes_read)
     }
 
     fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
-- 
2.43.0


From bcd5a953cf616fc0206296ea920388ab0063742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:46 +0000
Subject: [PATCH 21/57] fix: apply the write timeout to the whole write and
 survive interruptions

Each time that the peer read a bit of a write bigger than the socket buffers
the timeout started again, so a peer reading slowly held the worker forever.
An interruption in the middle of a write made the caller write again bytes
already written.
---
 wruster/src/streams/cancellable_stream.rs | 53 ++++++++---------------
 1 file changed, 18 insertions(+), 35 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 9718449..0dbf394 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -107,49 +107,32 @@ where
     }
 
     fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
-        let mut events = Vec::new();
-        let timeout = &self.write_timeout.write().unwrap().clone();
+        let deadline = self.write_deadline();
         let mut bytes_written = 0;
         let buf_len = buf.len();
         while bytes_written < buf_len {
-            events.clear();
-            self.poller
-                .modify(self.stream.as_raw(), Event::writable(1))?;
-            if self.poller.wait(&mut events, *timeout)? == 0 {
-                let stop = self.done.load(atomic::Ordering::SeqCst);
-                if stop {
-                    return Err(io::Error::from(io::ErrorKind::NotConnected));
-                };
-                // TODO: Actually we could be here not only because the timeout
-                // passed without the stream being ready to accept writes, but
-                // also because the OS returned no events spuriously, so we
-                // should check ourselves if the timeout period has passed, and
-                // if not, retry the wait.
-                return Err(io::Error::from(io::ErrorKind::TimedOut));
-            }
-            for evt in &events {
-                if evt.key != 1 || !evt.writable {
+            self.wait(Event::writable(1), deadline)?;
+            let write_buf = &buf[bytes_written..];
+            match self.stream.write_buf(write_buf) {
+                Ok(n) => {
+                    bytes_written += n;
+                }
+                Err(err)
+                    if err.kind() == io::ErrorKind::WouldBlock
+                        || err.kind() == io::ErrorKind::Interrupted =>
+                {
                     continue;
                 }
-                let write_buf = &buf[bytes_written..];
-                let s = &self.stream;
-                match s.write_buf(write_buf) {
-                    Ok(n) => {
-                        bytes_written += n;
-                    }
-                    Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
-                        break;
-                    }
-                    Err(err) => {
-                        self.stream.set_nonblocking(false)?;
-                        return Err(err);
-                    }
-                };
-                break;
-            }
+                Err(err) => return Err(err),
+            };
         }
         Ok(bytes_written)
     }
+
+    fn write_deadline(&self) -> Option<Instant> {
+        let timeout = *self.write_timeout.read().unwrap();
+        timeout.and_then(|t| Instant::now().checked_add(t))
+    }
 }
 
 impl<T> io::Read for &CancellableStream<T>
-- 
2.43.0


From 53bf0f4a2cbcd5a46f5214570fc3513471c28329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:47 +0000
Subject: [PATCH 22/57] fix: wait until all the data of a response is flushed

The data of a TLS stream that didn't fit in the socket was lost when the
connection was closed, because flushing it returned just WouldBlock.
---
 wruster/src/lib.rs                        | 11 ++++-------
 wruster/src/streams/cancellable_stream.rs | 16 ++++++++++++++--
 wruster/src/streams/timeout_stream.rs     | 17 ++++++++++++++++-
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 1ea9bc2..11b5d27 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -532,7 +532,8 @@ where
     let shutdown_stream = stream.clone();
     let mut timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
     let mut resp = Response::from_status(StatusCode::ServiceUnavailable);
-    if let Err(err) = resp.write(&mut timeout_stream) {
+    let written = resp.write(&mut timeout_stream);
+    if let Err(err) = written.and_then(|_| timeout_stream.flush().map_err(HttpError::from)) {
         error!("sending too busy to {}: {}", src_addr, err.to_string())
     }
     let s = &*shutdown_stream;
@@ -543,7 +544,7 @@ where
 }
 
 fn handle_conversation<T>(
-    mut stream: ObservedStream<T>,
+    stream: ObservedStream<T>,
     routes: Arc<Router>,
     timeouts: Timeouts,
     source_addr: SocketAddr,
@@ -566,11 +567,6 @@ fn handle_conversation<T>(
             source_addr,
             timeouts.clone(),
         );
-        if let Err(err) = stream.flush() {
-            error!("error flushing to: {}, {}", source_addr, err);
-            return;
-        }
-        debug!("connection flushed");
     }
 
     if let Err(err) = stream.shutdown(net::Shutdown::Both) {
@@ -633,6 +629,7 @@ where
         true => response.write_head(&mut timeout_stream),
         false => response.write(&mut timeout_stream),
     };
+    let written = written.and_then(|_| timeout_stream.flush().map_err(HttpError::from));
     if let Err(err) = written {
         error!(
             "error writing response to: {}, error info: {}",
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 0dbf394..2da59a6 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -129,6 +129,18 @@ where
         Ok(bytes_written)
     }
 
+    fn flush_int(&self) -> io::Result<()> {
+        let deadline = self.write_deadline();
+        loop {
+            match self.stream.flush_data() {
+                Err(err) if err.kind() == io::ErrorKind::WouldBlock => (),
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+                res => return res,
+            };
+            self.wait(Event::writable(1), deadline)?;
+        }
+    }
+
     fn write_deadline(&self) -> Option<Instant> {
         let timeout = *self.write_timeout.read().unwrap();
         timeout.and_then(|t| Instant::now().checked_add(t))
@@ -153,7 +165,7 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
 
@@ -177,6 +189,6 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 9d1d394..a5467af 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -184,7 +184,22 @@ where
 
     fn flush(&mut self) -> io::Result<()> {
         let stream = &mut self.stream;
-        stream.flush()
+        let timeout = match self.write {
+            None => return stream.flush(),
+            Some(timeout) => timeout,
+        };
+        let write = self
+            .ongoing_write
+            .get_or_insert_with(|| Operation::from_timeout(timeout));
+        let next_timeout = write.next_timeout();
+        if next_timeout.is_zero() {
+            return Err(io::Error::from(io::ErrorKind::TimedOut));
+        }
+        stream.set_write_timeout(Some(next_timeout))?;
+        write.start();
+        let res = stream.flush();
+        write.stop();
+        res
     }
 }
 
-- 
2.43.0


From 7435935184e2eadf56023c03459c7e7be2f673e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:39 +0000
Subject: [PATCH 23/57] fix: survive a panic in an action of the thread pool

A handler that panicked ended its worker, the next connection given to that
worker ended the thread accepting connections, so the whole server stopped.
---
 wruster/src/thread_pool/dynamic_pool.rs |  6 +++---
 wruster/src/thread_pool/mod.rs          | 13 ++++++++++++-
 wruster/src/thread_pool/static_pool.rs  |  4 ++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index 76b7437..3144a13 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -7,7 +7,7 @@ use std::time::Duration;
 
 use atomic_refcell::AtomicRefCell;
 
-use super::{Action, PoolError};
+use super::{run_action, Action, PoolError};
 
 type DynamicWorkerFinished = Box<dyn FnOnce() + Send>;
 
@@ -31,12 +31,12 @@ impl DynamicWorker {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            first_action();
+            run_action(first_action);
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
                     Ok(action) => {
-                        action();
+                        run_action(action);
                         debug!("action executed");
                         continue;
                     }
diff --git a/wruster/src/thread_pool/mod.rs b/wruster/src/thread_pool/mod.rs
index 7193301..506b6c9 100644
--- a/wruster/src/thread_pool/mod.rs
+++ b/wruster/src/thread_pool/mod.rs
@@ -1,4 +1,8 @@
-use std::{fmt::Debug, time::Duration};
+use std::{
+    fmt::Debug,
+    panic::{self, AssertUnwindSafe},
+    time::Duration,
+};
 
 mod dynamic_pool;
 mod static_pool;
@@ -19,6 +23,13 @@ impl Debug for PoolError {
     }
 }
 
+/// Runs an action ensuring that the worker running it survives if it panics.
+fn run_action(action: Action) {
+    if panic::catch_unwind(AssertUnwindSafe(action)).is_err() {
+        error!("an action executed by a worker panicked");
+    }
+}
+
 pub struct Pool {
     dynamic: Option<Dynamic>,
     stat: Option<Static>,
diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index a419048..67be096 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -3,7 +3,7 @@ use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
 use std::thread;
 
-use super::{Action, PoolError};
+use super::{run_action, Action, PoolError};
 
 struct Worker {
     id: usize,
@@ -20,7 +20,7 @@ impl Worker {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
-                action();
+                run_action(action);
                 debug!("action executed");
                 continue;
             }
-- 
2.43.0


From 7977688d7bca0613a4b0649c791d1306ff2a6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:39 +0000
Subject: [PATCH 24/57] fix: a failure creating a TLS stream must not end the
 server

---
 wruster/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 11b5d27..45cd45b 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -267,7 +267,7 @@ impl Server {
         cert: Certificate,
     ) -> ServerResult {
         self.start(addr, routes, move |stream: TcpStream| {
-            let stream = tls::Stream::new(stream, key.clone(), cert.clone()).unwrap();
+            let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
         })
     }
-- 
2.43.0


From 86dac69229939ffea4d94551dee1d13b31d879a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 25/57] fix: do not stop the server on transient errors
 accepting connections

A signal, a connection aborted before being accepted or a temporary lack of
file descriptors ended the thread that accepts the connections.
---
 wruster/src/lib.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 45cd45b..6ee0347 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -83,6 +83,9 @@ pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_se
 /// Defines the default max time for a response to be written
 pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_secs(60);
 
+/// Defines the time to wait before accepting connections after an error.
+const ACCEPT_ERROR_PAUSE: time::Duration = time::Duration::from_millis(10);
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -354,16 +357,28 @@ impl Server {
         loop {
             debug!("tracked streams {}", active_streams.len());
             events.clear();
-            epoller.wait(&mut events, None)?;
+            match epoller.wait(&mut events, None) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => (),
+                Err(err) => return Err(Box::new(err)),
+                Ok(_) => (),
+            };
             for evt in &events {
                 if evt.key != 1 {
                     continue;
                 }
-                let (stream, src_addr) = match listener.accept() {
-                    Err(err) => return Err(Box::new(err)),
+                let accepted = listener.accept();
+                epoller.modify(&listener, Event::readable(1)).unwrap();
+                let (stream, src_addr) = match accepted {
+                    Err(err) => {
+                        // The errors accepting a connection are either related
+                        // only to that connection or transient, e.g.: there are
+                        // too many open files.
+                        error!("error accepting connection: {}", err);
+                        thread::sleep(ACCEPT_ERROR_PAUSE);
+                        continue;
+                    }
                     Ok(connection) => connection,
                 };
-                epoller.modify(&listener, Event::readable(1)).unwrap();
                 info!("accepting connection from {}", src_addr);
                 let cconfig = Arc::clone(&routes);
                 let action_timeouts = timeouts.clone();
-- 
2.43.0


From 40a5730815515a7904435171df8f1d097c4952fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:17 +0000
Subject: [PATCH 26/57] fix: a shutdown must not interrupt the requests being
 processed

The connections were closed while their handlers were still running, so the
responses were lost, although the documentation says that the shutdown waits
until the ongoing requests are processed.
---
 wruster/src/lib.rs                        | 10 +++++--
 wruster/src/streams/cancellable_stream.rs | 35 ++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 6ee0347..ee6201e 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -407,7 +407,7 @@ impl Server {
                 for p in pending {
                     match p.upgrade() {
                         Some(p) => {
-                            match p.shutdown(net::Shutdown::Both) {
+                            match p.shutdown_gracefully() {
                                 Ok(()) => debug!("pending active connection closed"),
                                 Err(err) => {
                                     error!("error closing a pending active connection {}", err)
@@ -607,6 +607,10 @@ where
     let (request, mut response) = match requests.read_request() {
         Ok(mut request) => {
             connection_open = request.is_connection_persistent();
+            if !resp_stream.start_exchange() {
+                debug!("server stopped, closing connection with {}", source_addr);
+                return false;
+            }
             let response = run_action(&mut request, routes);
             (Some(request), response)
         }
@@ -639,7 +643,7 @@ where
     }
 
     // Write the response.
-    let mut timeout_stream = TimeoutStream::from(resp_stream, read_timeout, write_timeout);
+    let mut timeout_stream = TimeoutStream::from(resp_stream.clone(), read_timeout, write_timeout);
     let written = match only_head {
         true => response.write_head(&mut timeout_stream),
         false => response.write(&mut timeout_stream),
@@ -658,7 +662,7 @@ where
         error!("error discarding request body, error info: {}", err);
         return false;
     }
-    connection_open
+    connection_open && resp_stream.end_exchange()
 }
 
 fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 2da59a6..10b50d5 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -2,7 +2,7 @@ use std::{
     io,
     net::Shutdown,
     sync::{
-        atomic::{self, AtomicBool, Ordering},
+        atomic::{self, AtomicBool, AtomicU8, Ordering},
         Arc, RwLock,
     },
     time::{Duration, Instant},
@@ -12,10 +12,16 @@ use polling::Event;
 
 use super::BaseStream;
 
+// States of a stream regarding a graceful shutdown.
+const IDLE: u8 = 0;
+const IN_EXCHANGE: u8 = 1;
+const CLOSING: u8 = 2;
+
 pub struct CancellableStream<T: BaseStream> {
     stream: T,
     poller: Arc<polling::Poller>,
     done: AtomicBool,
+    state: AtomicU8,
     read_timeout: RwLock<Option<Duration>>,
     write_timeout: RwLock<Option<Duration>>,
 }
@@ -34,6 +40,7 @@ where
         Ok(CancellableStream {
             stream,
             done,
+            state: AtomicU8::new(IDLE),
             poller,
             read_timeout,
             write_timeout,
@@ -57,6 +64,32 @@ where
         self.stream.shutdown(how)
     }
 
+    /// Signals that an exchange of messages is going to start in the stream, so
+    /// it must not be interrupted by a graceful shutdown. Returns false if the
+    /// stream is already being shutdown.
+    pub fn start_exchange(&self) -> bool {
+        self.state
+            .compare_exchange(IDLE, IN_EXCHANGE, Ordering::SeqCst, Ordering::SeqCst)
+            .is_ok()
+    }
+
+    /// Signals that the exchange started has ended. Returns false if a graceful
+    /// shutdown was requested in the meantime, so the stream must be closed.
+    pub fn end_exchange(&self) -> bool {
+        self.state
+            .compare_exchange(IN_EXCHANGE, IDLE, Ordering::SeqCst, Ordering::SeqCst)
+            .is_ok()
+    }
+
+    /// Shuts down the stream, unless there is an ongoing exchange, in that case
+    /// the stream must be closed by the one that started the exchange.
+    pub fn shutdown_gracefully(&self) -> io::Result<()> {
+        match self.state.swap(CLOSING, Ordering::SeqCst) {
+            IN_EXCHANGE => Ok(()),
+            _ => self.shutdown(Shutdown::Both),
+        }
+    }
+
     /// Waits until the stream is ready to perform the given operation.
     fn wait(&self, event: Event, deadline: Option<Instant>) -> io::Result<()> {
         let mut events = Vec::new();
-- 
2.43.0


From d5eecb669c8eb7e4ea5c02f1ec8d6a1b8d70cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 27/57] fix: do not burn CPU writing to a TLS stream whose
 handshake is not finished

The stream was always ready to be written, but nothing could be written until
the peer sent its part of the handshake.
---
 wruster/src/streams/cancellable_stream.rs | 15 ++++++++++++---
 wruster/src/streams/mod.rs                | 17 +++++++++++++++++
 wruster/src/streams/tls/mod.rs            |  9 +++++++++
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 10b50d5..5c2c1b8 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -135,7 +135,16 @@ where
                 Err(err) if err.kind() == io::ErrorKind::WouldBlock => (),
                 Err(err) => return Err(err),
             };
-            self.wait(Event::readable(1), deadline)?;
+            let mut event = Event::readable(1);
+            event.writable = self.stream.needs_write();
+            self.wait(event, deadline)?;
+        }
+    }
+
+    fn wait_write(&self, deadline: Option<Instant>) -> io::Result<()> {
+        match self.stream.needs_read() {
+            true => self.wait(Event::readable(1), deadline),
+            false => self.wait(Event::writable(1), deadline),
         }
     }
 
@@ -144,7 +153,7 @@ where
         let mut bytes_written = 0;
         let buf_len = buf.len();
         while bytes_written < buf_len {
-            self.wait(Event::writable(1), deadline)?;
+            self.wait_write(deadline)?;
             let write_buf = &buf[bytes_written..];
             match self.stream.write_buf(write_buf) {
                 Ok(n) => {
@@ -170,7 +179,7 @@ where
                 Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
                 res => return res,
             };
-            self.wait(Event::writable(1), deadline)?;
+            self.wait_write(deadline)?;
         }
     }
 
diff --git a/wruster/src/streams/mod.rs b/wruster/src/streams/mod.rs
index 04a281d..7dee23a 100644
--- a/wruster/src/streams/mod.rs
+++ b/wruster/src/streams/mod.rs
@@ -22,6 +22,15 @@ pub trait BaseStream {
     fn write_buf(&self, buf: &[u8]) -> io::Result<usize>;
     fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize>;
     fn flush_data(&self) -> io::Result<()>;
+    /// Returns true if the stream can not progress until it receives data from
+    /// the peer, for instance because there is an ongoing handshake.
+    fn needs_read(&self) -> bool {
+        false
+    }
+    /// Returns true if the stream holds data not sent yet to the peer.
+    fn needs_write(&self) -> bool {
+        false
+    }
 }
 
 impl BaseStream for TcpStream {
@@ -93,6 +102,14 @@ impl BaseStream for tls::Stream {
     fn flush_data(&self) -> io::Result<()> {
         self.flush_data()
     }
+
+    fn needs_read(&self) -> bool {
+        self.needs_read()
+    }
+
+    fn needs_write(&self) -> bool {
+        self.needs_write()
+    }
 }
 
 /**
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 4077332..954bb7a 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -83,6 +83,15 @@ impl Stream {
         let mut stream = self.stream.lock().unwrap();
         stream.flush()
     }
+
+    pub fn needs_read(&self) -> bool {
+        let stream = self.stream.lock().unwrap();
+        stream.conn.is_handshaking() && !stream.conn.wants_write()
+    }
+
+    pub fn needs_write(&self) -> bool {
+        self.stream.lock().unwrap().conn.wants_write()
+    }
 }
 
 impl Read for Stream {
-- 
2.43.0


From 90dbc3d9ce33ef39d8a459da519dbc3af74567c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:09 +0000
Subject: [PATCH 28/57] fix: do not stop accepting connections while rejecting
 one

When the server was too busy a TLS client that didn't finish its handshake
blocked the thread that accepts the connections up to the write timeout.
---
 wruster/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index ee6201e..d707fbb 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -86,6 +86,10 @@ pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_
 /// Defines the time to wait before accepting connections after an error.
 const ACCEPT_ERROR_PAUSE: time::Duration = time::Duration::from_millis(10);
 
+/// Defines the max number of threads used to reject connections when there are
+/// too many of them.
+const MAX_BUSY_WORKERS: usize = 10;
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -353,6 +357,9 @@ impl Server {
     {
         let mut events = Vec::new();
         let mut pool = thread_pool::Pool::new(execunits, 100);
+        // Rejecting a connection can block, e.g.: waiting for a TLS handshake,
+        // and the thread accepting the connections must not.
+        let mut busy_pool = thread_pool::Pool::new(0, MAX_BUSY_WORKERS);
         let active_streams = ObservedStreamList::new();
         loop {
             debug!("tracked streams {}", active_streams.len());
@@ -399,7 +406,13 @@ impl Server {
 
                 if pool.run(Box::new(action)).is_err() {
                     error!("server too busy to handle connection with: {}", src_addr);
-                    handle_busy(local_action_stream, timeouts.clone(), src_addr);
+                    let busy_timeouts = timeouts.clone();
+                    let busy = move || {
+                        handle_busy(local_action_stream, busy_timeouts, src_addr);
+                    };
+                    if let Err(err) = busy_pool.run(Box::new(busy)) {
+                        (err.action)();
+                    }
                 }
             }
             if stop.as_ref().load(Ordering::SeqCst) {
-- 
2.43.0


From ce1a2c3ee80ab49940c7ceccff45b5ceb2825b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 29/57] fix: route only to handlers of the path or its parents,
 for the same method

A handler of /a attended requests to /ab, and a handler of /a was not found
for a request to /a/b when /a/b had handlers only for other methods.
---
 wruster/src/router/mod.rs  | 15 +++++++++++----
 wruster/src/router/trie.rs |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/wruster/src/router/mod.rs b/wruster/src/router/mod.rs
index f60ec9d..a569291 100644
--- a/wruster/src/router/mod.rs
+++ b/wruster/src/router/mod.rs
@@ -69,11 +69,18 @@ impl Router {
 
     pub(crate) fn get_prefix(&self, route: String, method: HttpMethod) -> Option<Arc<HttpHandler>> {
         let routes = self.routes.borrow();
-        let method_actions = match routes.get_value_prefix(route.as_bytes()) {
-            None => return None,
-            Some(actions) => actions,
+        let find = |path: &str| {
+            let method_actions = routes.get_value(path.as_bytes())?;
+            method_actions.get_action(method)
         };
-        method_actions.get_action(method)
+        // Try with the path itself, with or without an ending separator, and
+        // then with each one of its parents.
+        let action = find(&route).or_else(|| find(&format!("{}/", route)));
+        action.or_else(|| {
+            route.rmatch_indices('/').find_map(|(separator, _)| {
+                find(&route[..=separator]).or_else(|| find(&route[..separator]))
+            })
+        })
     }
 }
 
diff --git a/wruster/src/router/trie.rs b/wruster/src/router/trie.rs
index 22ac6fb..386df57 100644
--- a/wruster/src/router/trie.rs
+++ b/wruster/src/router/trie.rs
@@ -40,6 +40,7 @@ impl<T> Trie<T> {
         child.move_value_out(&key[1..])
     }
 
+    #[allow(dead_code)]
     pub fn get_value_prefix(&self, key: &[u8]) -> Option<&T> {
         if key.is_empty() {
             return None;
@@ -109,6 +110,7 @@ impl<T> Node<T> {
         child.get_value(&key[1..])
     }
 
+    #[allow(dead_code)]
     fn get_value_prefix<'a>(&'a self, key: &[u8], prefix_value: Option<&'a T>) -> Option<&T> {
         if key.is_empty() {
             if self.value.is_none() {
-- 
2.43.0


From fb698e531968cbd736ca51539ac03d035462d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:45 +0000
Subject: [PATCH 30/57] fix: do not treat the query of a request as a part of
 its path

The query was normalized together with the path, so the handlers received it
changed, and a file or a route was not found if the request had a query.
---
 wruster/src/lib.rs          | 9 +++++++--
 wruster_handlers/src/lib.rs | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index d707fbb..4fa0af3 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -679,7 +679,12 @@ where
 }
 
 fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
-    let req_path = PathBuf::from(request.uri.clone());
+    // The query is not part of the path of the resource.
+    let (path, query) = match request.uri.find('?') {
+        Some(start) => request.uri.split_at(start),
+        None => (request.uri.as_str(), ""),
+    };
+    let req_path = PathBuf::from(path);
     let normalized = match req_path.normalize() {
         Ok(path) => path,
         Err(err) => {
@@ -697,6 +702,6 @@ fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
         Some(action) => action,
         None => return Response::from_status(StatusCode::NotFound),
     };
-    request.uri = String::from(normalized);
+    request.uri = format!("{}{}", normalized, query);
     action(request)
 }
diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index b87f6f3..1647fc8 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -37,7 +37,8 @@ server.wait().unwrap();
 */
 pub fn serve_static(dir: &str, request: &Request) -> Response {
     let base_path: PathBuf = PathBuf::from(dir).canonicalize().unwrap();
-    let mut uri = request.uri.as_str();
+    // The query is not part of the path of the file.
+    let mut uri = request.uri.split('?').next().unwrap_or_default();
     if uri.starts_with('/') {
         if uri.len() < 2 {
             return Response::from_status(StatusCode::NotFound);
-- 
2.43.0


From 9f519b3f96f250c00046b1b043c4c913b953916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 31/57] fix: serve only regular files inside the served
 directory

When serve_static was not called through the router of a server, a request
with parent, absolute or double slash components read files outside the
directory. Directories were answered with a success and no content, and named
pipes blocked the worker. A missing directory made the handler panic.
---
 wruster_handlers/src/lib.rs | 38 +++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 1647fc8..8a419cd 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -4,7 +4,10 @@ new handlers in a wruster web server.
 */
 use std::fs;
 use std::io::Read;
-use std::{io, path::PathBuf};
+use std::{
+    io,
+    path::{Component, Path, PathBuf},
+};
 
 #[macro_use]
 extern crate log;
@@ -36,7 +39,13 @@ server.wait().unwrap();
 ```
 */
 pub fn serve_static(dir: &str, request: &Request) -> Response {
-    let base_path: PathBuf = PathBuf::from(dir).canonicalize().unwrap();
+    let base_path = match PathBuf::from(dir).canonicalize() {
+        Ok(path) => path,
+        Err(err) => {
+            error!("error accessing the directory {}: {}", dir, err);
+            return Response::from_status(StatusCode::InternalServerError);
+        }
+    };
     // The query is not part of the path of the file.
     let mut uri = request.uri.split('?').next().unwrap_or_default();
     if uri.starts_with('/') {
@@ -45,8 +54,25 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
         uri = &uri[1..]
     }
-    let mut path = base_path;
-    path.push(uri);
+    let mut path = base_path.clone();
+    // Only the components that don't lead outside the directory are followed.
+    for component in Path::new(uri).components() {
+        match component {
+            Component::Normal(name) => path.push(name),
+            Component::ParentDir if path != base_path => {
+                path.pop();
+            }
+            Component::ParentDir => return Response::from_status(StatusCode::NotFound),
+            Component::CurDir | Component::RootDir | Component::Prefix(_) => (),
+        }
+    }
+
+    // The links must not lead outside the directory either.
+    if let Ok(real_path) = path.canonicalize() {
+        if !real_path.starts_with(&base_path) {
+            return Response::from_status(StatusCode::NotFound);
+        }
+    }
 
     let metadata = match fs::metadata(&path) {
         Ok(metadata) => metadata,
@@ -57,6 +83,10 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
             return Response::from_status(StatusCode::InternalServerError);
         }
     };
+    // Opening other kinds of files can block or return no content.
+    if !metadata.is_file() {
+        return Response::from_status(StatusCode::NotFound);
+    }
 
     let content = match fs::File::open(&path) {
         Ok(content) => content,
-- 
2.43.0


From 1e87810d7c62e78c57b591b9423b56e78a762a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 32/57] fix: announce the length of the file that is served

The length was taken before opening the file, that could have been replaced.
---
 wruster_handlers/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 8a419cd..13bfd29 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -97,6 +97,8 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
             return Response::from_status(StatusCode::InternalServerError);
         }
     };
+    // The path could already be another file, what counts is the one opened.
+    let metadata = content.metadata().unwrap_or(metadata);
     let mime_type = mime_guess::from_path(path).first_or_octet_stream();
     let mut headers = Headers::new();
     let content: Box<dyn Read> = Box::new(content);
-- 
2.43.0


From 537c2b5af08e5e053b20d72878efb2a8b90b515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 33/57] fix: reuse a client connection only if it is still
 usable

The connections were returned to the pool even if the client, or the server,
asked to close them, or if the body of the response could not be read to the
end, so the next request using them failed or got the rest of that body.
---
 wruster/src/http/client/mod.rs | 36 ++++++++++++++-------------------
 wruster/src/http/mod.rs        | 37 ++++++++++++++++++++++------------
 2 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 73315f7..c0596ad 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -29,6 +29,7 @@ pub struct ClientResponse {
     conn: TcpStream,
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
+    reusable: bool,
 }
 
 impl Deref for ClientResponse {
@@ -47,14 +48,18 @@ impl DerefMut for ClientResponse {
 
 impl Drop for ClientResponse {
     fn drop(&mut self) {
+        if !self.reusable {
+            return;
+        }
         if let Some(pool) = self.pool.upgrade() {
             if let Some(body) = self.response.body.as_mut() {
-                body.ensure_read().consume_error(|err| {
+                if let Err(err) = body.ensure_read() {
                     error!(
                         "error ensuring body in request has completely read: {}",
                         err
                     );
-                });
+                    return;
+                }
             }
 
             let pool = match pool.lock() {
@@ -89,8 +94,9 @@ impl<'a> Client {
     }
 
     pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+        let persistent = request.is_connection_persistent();
         let conn = {
-            match request.is_connection_persistent() {
+            match persistent {
                 true => {
                     let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                     match pool.get(addr) {
@@ -110,10 +116,14 @@ impl<'a> Client {
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
         let stream = Box::new(stream);
-        let response = match Response::read_from(stream) {
+        let (response, version) = match Response::read_with_version(stream) {
             Ok(response) => response,
             Err(err) => return Err(err),
         };
+        // Without a length the response ends when the connection is closed.
+        let reusable = persistent
+            && is_version_persistent(&version, &response.headers)
+            && response.headers.get("Content-Length").is_some();
         // TODO: when the response does not have body we can just return back
         // the connection to the pool here.
         let response_pool = Arc::clone(&self.connection_pool);
@@ -122,6 +132,7 @@ impl<'a> Client {
             conn: response_conn,
             pool: Arc::downgrade(&response_pool),
             addr: addr.to_string(),
+            reusable,
         };
         Ok(response)
     }
@@ -150,20 +161,3 @@ impl Drop for Client {
         }
     }
 }
-
-trait ConsumeIfError<F, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E);
-}
-
-impl<T, E, F> ConsumeIfError<F, E> for Result<T, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E),
-    {
-        if let Err(err) = self {
-            consumer(err)
-        }
-    }
-}
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 45de359..4844ae4 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -208,20 +208,26 @@ impl Request {
 
     */
     pub fn is_connection_persistent(&self) -> bool {
-        let has_option = |option: &str| has_connection_option(&self.headers, option);
-        if has_option("close") {
-            return false;
-        }
-
-        if self.version == "HTTP/1.1" || self.version == "HTTP/2" {
-            return true;
-        };
+        is_version_persistent(&self.version, &self.headers)
+    }
+}
 
-        if self.version == "HTTP/1.0" && has_option("keep-alive") {
-            return true;
-        };
-        false
+/// Returns true if the connection used to transfer a message with the given
+/// HTTP version and headers must be kept open.
+fn is_version_persistent(version: &str, headers: &Headers) -> bool {
+    let has_option = |option: &str| has_connection_option(headers, option);
+    if has_option("close") {
+        return false;
     }
+
+    if version == "HTTP/1.1" || version == "HTTP/2" {
+        return true;
+    };
+
+    if version == "HTTP/1.0" && has_option("keep-alive") {
+        return true;
+    };
+    false
 }
 
 /// Returns true if any of the comma separated values of the Connection headers
@@ -820,6 +826,11 @@ impl Response {
     does not conform to the spec: https://datatracker.ietf.org/doc/html/rfc7230.
     */
     pub fn read_from<T: io::Read + 'static>(from: T) -> Result<Response, HttpError> {
+        Self::read_with_version(from).map(|(response, _)| response)
+    }
+
+    /// Reads a response and the HTTP version in its status line.
+    fn read_with_version<T: io::Read + 'static>(from: T) -> HttpResult<(Response, String)> {
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec6.html
         //    Status-Line
         //                    *(( general-header
@@ -845,7 +856,7 @@ impl Response {
             headers,
         };
         debug!("response parsed: {:?}", response);
-        Ok(response)
+        Ok((response, status_line.http_version))
     }
 }
 
-- 
2.43.0


From 6e35affb4c444579e8fc76bb900563f79bf858ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 34/57] fix: do not block all the requests of a client while
 connecting to an address

---
 wruster/src/http/client/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index c0596ad..0fca080 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -99,7 +99,10 @@ impl<'a> Client {
             match persistent {
                 true => {
                     let pool = self.connection_pool.lock().map_err(HttpError::from)?;
-                    match pool.get(addr) {
+                    let conn = pool.get(addr);
+                    // Don't block other requests while connecting.
+                    drop(pool);
+                    match conn {
                         Some(conn) => conn.resource(),
                         None => Self::connect(addr).map(Arc::new)?,
                     }
-- 
2.43.0


From f48cb2a49834d0ec76302520b16852e188c487de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 35/57] fix: do not use pooled connections already closed by
 the server

A request failed when the server closed the connection after the idle time
that it allows.
---
 wruster/src/http/client/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 0fca080..b2ab0c0 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -102,8 +102,8 @@ impl<'a> Client {
                     let conn = pool.get(addr);
                     // Don't block other requests while connecting.
                     drop(pool);
-                    match conn {
-                        Some(conn) => conn.resource(),
+                    match conn.map(PoolResource::resource).filter(|c| is_idle(c)) {
+                        Some(conn) => conn,
                         None => Self::connect(addr).map(Arc::new)?,
                     }
                 }
@@ -147,6 +147,19 @@ impl<'a> Client {
     }
 }
 
+/// Returns true if a connection taken from the pool is still open and there is
+/// no data, not belonging to any request, waiting to be read in it.
+fn is_idle(conn: &TcpStream) -> bool {
+    if conn.set_nonblocking(true).is_err() {
+        return false;
+    }
+    let idle = match conn.peek(&mut [0; 1]) {
+        Err(err) => err.kind() == io::ErrorKind::WouldBlock,
+        Ok(_) => false,
+    };
+    idle && conn.set_nonblocking(false).is_ok()
+}
+
 impl Default for Client {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From eb9ec2c8e1fbebc21cadde1b8ddfc5eb29931e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 36/57] fix: keep the connection just used when the pool is
 full

The least recently used connection was removed from the pool, but the one to
be inserted was closed too.
---
 wruster/src/http/client/connection_pool.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/client/connection_pool.rs b/wruster/src/http/client/connection_pool.rs
index b66be95..ec087b5 100644
--- a/wruster/src/http/client/connection_pool.rs
+++ b/wruster/src/http/client/connection_pool.rs
@@ -114,12 +114,10 @@ where
     pub fn insert(&self, key: &str, connection: PoolResource<T>) {
         let mut connections = self.resources.write().unwrap();
         let connections = connections.borrow_mut();
-        match connections.len() {
-            MAX_RESOURCES => Self::remove_lru(connections),
-            _ => {
-                connections.insert(key.to_string(), connection);
-            }
+        if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {
+            Self::remove_lru(connections);
         }
+        connections.insert(key.to_string(), connection);
     }
 
     /**
-- 
2.43.0


From 233c0a603e144a0a2e8a371e20f431fe6477241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 37/57] fix: the client must not wait for a body in the
 response to a HEAD request

---
 wruster/src/http/client/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index b2ab0c0..d1b1298 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -94,6 +94,8 @@ impl<'a> Client {
     }
 
     pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+        // The response to a HEAD request never has a body.
+        let only_head = request.method == HttpMethod::HEAD;
         let persistent = request.is_connection_persistent();
         let conn = {
             match persistent {
@@ -119,10 +121,13 @@ impl<'a> Client {
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
         let stream = Box::new(stream);
-        let (response, version) = match Response::read_with_version(stream) {
+        let (mut response, version) = match Response::read_with_version(stream) {
             Ok(response) => response,
             Err(err) => return Err(err),
         };
+        if only_head {
+            response.body = None;
+        }
         // Without a length the response ends when the connection is closed.
         let reusable = persistent
             && is_version_persistent(&version, &response.headers)
-- 
2.43.0


From bcbae33595cdb0b193b42ae0fc81af1461a50368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:20 +0000
Subject: [PATCH 38/57] fix: find headers by name in constant time

---
 wruster/src/http/headers.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 748636f..f206181 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -12,6 +12,8 @@ use super::MessageChar;
 /// Holds a collection of HTTP headers.
 pub struct Headers {
     headers: HashMap<String, Vec<String>>,
+    // The names as they were added by its lowercase version.
+    names: HashMap<String, String>,
 }
 
 impl Headers {
@@ -30,6 +32,7 @@ impl Headers {
     pub fn new() -> Headers {
         Headers {
             headers: HashMap::new(),
+            names: HashMap::new(),
         }
     }
 
@@ -106,24 +109,19 @@ impl Headers {
     pub fn add(&mut self, header: Header) {
         let name = header.name;
         let content = header.value;
-        let name = self.find_name(&name).cloned().unwrap_or(name);
-        let values = self.headers.entry(name).or_default();
+        let lowercase_name = name.to_ascii_lowercase();
+        let name = self.names.entry(lowercase_name).or_insert(name);
+        let values = self.headers.entry(name.clone()).or_default();
         values.push(content);
     }
 
     /// Removes all the values of a header given its name.
     pub(crate) fn remove(&mut self, name: &str) {
-        if let Some(name) = self.find_name(name).cloned() {
+        if let Some(name) = self.names.remove(&name.to_ascii_lowercase()) {
             self.headers.remove(&name);
         }
     }
 
-    /// Returns the name, as it was added, that is equal to the given one
-    /// ignoring the case.
-    fn find_name(&self, name: &str) -> Option<&String> {
-        self.headers.keys().find(|k| k.eq_ignore_ascii_case(name))
-    }
-
     /**
     Returns the values of a header given its name.
 
@@ -148,7 +146,7 @@ impl Headers {
     ```
     */
     pub fn get(&self, name: &str) -> Option<&Vec<String>> {
-        self.headers.get(self.find_name(name)?)
+        self.headers.get(self.names.get(&name.to_ascii_lowercase())?)
     }
 
     /**
-- 
2.43.0


From 5bb562e1b2c8567a3d1fabdff7f3b16f5636de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 39/57] fix: reject an invalid private key when starting a TLS
 server

---
 wruster/src/lib.rs             |  2 ++
 wruster/src/streams/tls/mod.rs | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 4fa0af3..576adec 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -264,6 +264,7 @@ impl Server {
     This function will return an error if:
     * The address is wrong formatted or not free.
     * The server is already started.
+    * The private key or the certificate are not valid.
 
      */
     pub fn run_tls(
@@ -273,6 +274,7 @@ impl Server {
         key: PrivateKey,
         cert: Certificate,
     ) -> ServerResult {
+        tls::server_config(key.clone(), cert.clone())?;
         self.start(addr, routes, move |stream: TcpStream| {
             let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 954bb7a..a5cb911 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -27,12 +27,7 @@ impl Stream {
         private_key: PrivateKey,
         cert: Certificate,
     ) -> Result<Self, io::Error> {
-        let cert_chain = vec![cert.0];
-        let tls_config = ServerConfig::builder()
-            .with_safe_defaults()
-            .with_no_client_auth()
-            .with_single_cert(cert_chain, private_key.0)
-            .map_err(|err| io::Error::new(io::ErrorKind::Other, err))?;
+        let tls_config = server_config(private_key, cert)?;
         let plain_stream = stream.try_clone()?;
         let tls_config = Arc::new(tls_config);
         let connection = ServerConnection::new(Arc::clone(&tls_config))
@@ -94,6 +89,17 @@ impl Stream {
     }
 }
 
+/// Returns the config of a server using the given private key and certificate,
+/// or an error if they are not valid.
+pub fn server_config(private_key: PrivateKey, cert: Certificate) -> io::Result<ServerConfig> {
+    let cert_chain = vec![cert.0];
+    ServerConfig::builder()
+        .with_safe_defaults()
+        .with_no_client_auth()
+        .with_single_cert(cert_chain, private_key.0)
+        .map_err(|err| io::Error::new(io::ErrorKind::Other, err))
+}
+
 impl Read for Stream {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         self.read_int(buf)
-- 
2.43.0


From ec4e42bd852575d6ab42238fb1c232194d1811e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 40/57] fix: do not serve a directory that does not exist

---
 wrustatic/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wrustatic/src/main.rs b/wrustatic/src/main.rs
index f5b2c11..5bec5b4 100644
--- a/wrustatic/src/main.rs
+++ b/wrustatic/src/main.rs
@@ -1,3 +1,4 @@
+use std::path::Path;
 use std::process;
 use std::process::exit;
 use std::time::Duration;
@@ -39,6 +40,10 @@ fn main() {
     let cli = Cli::parse();
     let addr = cli.addres;
     let dir = cli.directory;
+    if !Path::new(&dir).is_dir() {
+        error!("{} is not a directory", dir);
+        process::exit(1);
+    }
 
     let routes = router::Router::new();
     let serve_dir: HttpHandler =
-- 
2.43.0


From 56583d2837a110e89ad156f8b8970998ef9be11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 41/57] fix: accept responses with an empty reason phrase

---
 wruster/src/http/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 4844ae4..3f35600 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -922,7 +922,8 @@ impl HttpResponseLine {
         if let Err(err) = from.read_until(b'\n', &mut reason_phrase) {
             return Err(Unknown(err.to_string()));
         };
-        if reason_phrase.len() < 3 {
+        // The reason phrase can be empty.
+        if !reason_phrase.ends_with(b"\r\n") {
             return Err(Unknown(String::from("invalid reason phrase")));
         };
         let reason_phrase =
-- 
2.43.0


From b3a9130b683789111d2b0b2b7e19375c9d0e2a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 42/57] fix: accept only digits in the status code of a
 response

---
 wruster/src/http/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 3f35600..aeb20a7 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -909,7 +909,8 @@ impl HttpResponseLine {
             return Err(Unknown(err.to_string()));
         };
         let mut status_code = String::from_utf8_lossy(&status_code).to_string();
-        if status_code.len() != 4 {
+        // usize::from_str also accepts a plus sign.
+        if status_code.len() != 4 || status_code.contains('+') {
             return Err(Unknown(format!("invalid status code: {}", status_code)));
         };
         status_code = status_code.trim_end().to_string();
-- 
2.43.0


From 08e7f248abb4cebc6a8b4a1bdda4ad37477cd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 43/57] verification hook: expose private pools under
 cfg(wruster_verif)

---
 wruster/src/http/client/mod.rs | 5 +++++
 wruster/src/lib.rs             | 8 ++++++++
 wruster/src/thread_pool/mod.rs | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index d1b1298..b7f2721 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -15,6 +15,11 @@ use crate::streams::timeout_stream::TimeoutStream;
 
 mod connection_pool;
 
+#[cfg(wruster_verif)]
+pub mod verif_hooks {
+    pub use super::connection_pool::{Pool as ConnectionPool, PoolResource};
+}
+
 #[cfg(test)]
 mod tests;
 
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 576adec..365381a 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -77,6 +77,14 @@ pub mod test_utils;
 mod streams;
 mod thread_pool;
 
+/// Private types used by the verification harness.
+#[cfg(wruster_verif)]
+pub mod verif_hooks {
+    pub use crate::http::client::verif_hooks::{ConnectionPool, PoolResource};
+    pub use crate::thread_pool::verif_hooks::{Dynamic, Static};
+    pub use crate::thread_pool::{Pool, PoolError};
+}
+
 /// Defines the default max time for a request to be read
 pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_secs(30);
 
diff --git a/wruster/src/thread_pool/mod.rs b/wruster/src/thread_pool/mod.rs
index 506b6c9..211e3ac 100644
--- a/wruster/src/thread_pool/mod.rs
+++ b/wruster/src/thread_pool/mod.rs
@@ -9,6 +9,11 @@ mod static_pool;
 
 use self::{dynamic_pool::Dynamic, static_pool::Static};
 
+#[cfg(wruster_verif)]
+pub mod verif_hooks {
+    pub use super::{dynamic_pool::Dynamic, static_pool::Static};
+}
+
 type Action = Box<dyn FnOnce() + Send + 'static>;
 
 const DEFAULT_TIMEOUT: Duration = Duration::from_secs(10);
-- 
2.43.0


From bf44c62bc1666d77ce35cb7f53e33ebf85548332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 44/57] fix: do not reset a connection whose last response is
 being received

---
 wruster/src/lib.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 365381a..01e08b8 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -94,6 +94,10 @@ pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_
 /// Defines the time to wait before accepting connections after an error.
 const ACCEPT_ERROR_PAUSE: time::Duration = time::Duration::from_millis(10);
 
+/// Defines the max time to wait for a client to close its side of a connection
+/// after the server has sent the last response.
+const MAX_LINGER_TIME: time::Duration = time::Duration::from_secs(5);
+
 /// Defines the max number of threads used to reject connections when there are
 /// too many of them.
 const MAX_BUSY_WORKERS: usize = 10;
@@ -685,7 +689,29 @@ where
         error!("error discarding request body, error info: {}", err);
         return false;
     }
-    connection_open && resp_stream.end_exchange()
+    if !resp_stream.end_exchange() {
+        return false;
+    }
+    if !connection_open {
+        linger(resp_stream, read_timeout);
+    }
+    connection_open
+}
+
+/// Signals the client that there are no more responses and discards what it
+/// sends until it closes the connection. If a connection is closed when there
+/// is data not read, it is reset and the client can lose the last response:
+/// https://datatracker.ietf.org/doc/html/rfc7230#section-6.6.
+fn linger<T: Stream>(stream: ObservedStream<T>, timeout: Option<time::Duration>) {
+    if let Err(err) = stream.shutdown(net::Shutdown::Write) {
+        debug!("error closing the write side of a connection: {}", err);
+        return;
+    }
+    let timeout = timeout.map_or(MAX_LINGER_TIME, |timeout| timeout.min(MAX_LINGER_TIME));
+    let mut timeout_stream = TimeoutStream::from(stream, Some(timeout), None);
+    if let Err(err) = io::copy(&mut timeout_stream, &mut io::sink()) {
+        debug!("connection closed by the client: {}", err);
+    }
 }
 
 fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
-- 
2.43.0


From 1bfe20714b8e78608f12801564ceb8eb8c986a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 45/57] fix: do not reset the connections of the last responses
 on shutdown

A response in progress when the server is shut down was cut by a reset if the
client had already sent more requests.
---
 wruster/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 01e08b8..01d8ec5 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -689,9 +689,9 @@ where
         error!("error discarding request body, error info: {}", err);
         return false;
     }
-    if !resp_stream.end_exchange() {
-        return false;
-    }
+    // A graceful shutdown leaves to us closing the connections in an exchange.
+    let shutting_down = !resp_stream.end_exchange();
+    let connection_open = connection_open && !shutting_down;
     if !connection_open {
         linger(resp_stream, read_timeout);
     }
-- 
2.43.0


From b8569a877c8ecbbdbd8e854fe0d02da91c9d9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 46/57] fix: bound the time spent on rejecting a connection

Rejecting clients that stall their TLS handshake could block the thread
accepting connections, and so a shutdown, for the whole write timeout.
---
 wruster/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 01d8ec5..6de0189 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -102,6 +102,10 @@ const MAX_LINGER_TIME: time::Duration = time::Duration::from_secs(5);
 /// too many of them.
 const MAX_BUSY_WORKERS: usize = 10;
 
+/// Defines the max time spent on rejecting a connection. When the threads above
+/// are not enough it is spent by the thread accepting the connections.
+const MAX_BUSY_TIME: time::Duration = time::Duration::from_secs(2);
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -569,7 +573,7 @@ where
     T: Stream,
 {
     debug!("sending too busy to {}", src_addr);
-    let write_timeout = Some(timeouts.write_response_timeout);
+    let write_timeout = Some(timeouts.write_response_timeout.min(MAX_BUSY_TIME));
     let read_timeout = Some(timeouts.read_request_timeout);
     let shutdown_stream = stream.clone();
     let mut timeout_stream = TimeoutStream::from(stream, read_timeout, write_timeout);
-- 
2.43.0


From 780f237b55bc40d0e13c7d081d80afc84c4e8b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 47/57] fix: do not delay the last bytes of a response

With Nagle's algorithm the end of a response could wait for the acknowledgement
of its beginning and be lost when the connection was closed.
---
 wruster/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 6de0189..88ed723 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -405,6 +405,12 @@ impl Server {
                     Ok(connection) => connection,
                 };
                 info!("accepting connection from {}", src_addr);
+                // A response is written in several small pieces, if the last
+                // ones are delayed they can be lost when the connection is
+                // closed.
+                if let Err(err) = stream.set_nodelay(true) {
+                    error!("error disabling the delay of small writes: {}", err);
+                }
                 let cconfig = Arc::clone(&routes);
                 let action_timeouts = timeouts.clone();
 
-- 
2.43.0


From 28a78b771a4342863095ba02782865c4ee72594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 48/57] fix: do not reuse a client connection while its body is
 still to be read

---
 wruster/src/http/client/mod.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index b7f2721..a500798 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -1,4 +1,5 @@
 #![allow(missing_docs)]
+use std::mem;
 use std::net::SocketAddr;
 use std::net::TcpStream;
 use std::net::ToSocketAddrs;
@@ -35,6 +36,7 @@ pub struct ClientResponse {
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
     reusable: bool,
+    pending_body: Rc<Cell<u64>>,
 }
 
 impl Deref for ClientResponse {
@@ -66,6 +68,10 @@ impl Drop for ClientResponse {
                     return;
                 }
             }
+            // The body could have been taken out of the response.
+            if self.pending_body.get() > 0 {
+                return;
+            }
 
             let pool = match pool.lock() {
                 Ok(pool) => pool,
@@ -137,6 +143,14 @@ impl<'a> Client {
         let reusable = persistent
             && is_version_persistent(&version, &response.headers)
             && response.headers.get("Content-Length").is_some();
+        let pending_body = Rc::new(Cell::new(0));
+        if let Some(body) = response.body.as_mut() {
+            pending_body.set(body.content_length);
+            body.content = Box::new(PendingBody {
+                content: mem::replace(&mut body.content, Box::new(io::empty())),
+                pending: Rc::clone(&pending_body),
+            });
+        }
         // TODO: when the response does not have body we can just return back
         // the connection to the pool here.
         let response_pool = Arc::clone(&self.connection_pool);
@@ -146,6 +160,7 @@ impl<'a> Client {
             pool: Arc::downgrade(&response_pool),
             addr: addr.to_string(),
             reusable,
+            pending_body,
         };
         Ok(response)
     }
@@ -157,6 +172,21 @@ impl<'a> Client {
     }
 }
 
+/// Keeps the number of bytes of the body of a response still to be read.
+struct PendingBody {
+    content: Box<dyn Read>,
+    pending: Rc<Cell<u64>>,
+}
+
+impl Read for PendingBody {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let bytes_read = self.content.read(buf)?;
+        let pending = self.pending.get().saturating_sub(bytes_read as u64);
+        self.pending.set(pending);
+        Ok(bytes_read)
+    }
+}
+
 /// Returns true if a connection taken from the pool is still open and there is
 /// no data, not belonging to any request, waiting to be read in it.
 fn is_idle(conn: &TcpStream) -> bool {
-- 
2.43.0


From d5ae88a7f0d122854e32d82ddba27ca1fb7d5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 49/57] fix: running a server without free file descriptors
 must return an error

---
 wruster/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 88ed723..941e662 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -317,12 +317,11 @@ impl Server {
             Ok(listener) => listener,
             Err(err) => return Err(Box::new(err)),
         };
-        listener.set_nonblocking(true).unwrap();
-        let poller = polling::Poller::new().unwrap();
-        poller.add(&listener, Event::readable(1)).unwrap();
+        listener.set_nonblocking(true)?;
+        let poller = polling::Poller::new()?;
+        poller.add(&listener, Event::readable(1))?;
         let poller = Arc::new(poller);
         let epoller = Arc::clone(&poller);
-        self.poller = Some(poller);
         info!("listening on {}", &addr);
         let routes = Arc::new(routes);
         let execunits = match thread::available_parallelism() {
@@ -344,7 +343,7 @@ impl Server {
         let stop = Arc::clone(&self.stop);
         let timeouts = self.timeouts.clone();
 
-        let handle = thread::spawn(move || {
+        let handle = thread::Builder::new().spawn(move || {
             Self::accept_connections(
                 timeouts,
                 stop,
@@ -354,8 +353,9 @@ impl Server {
                 routes,
                 stream_builder,
             )
-        });
+        })?;
 
+        self.poller = Some(poller);
         self.handle = Some(handle);
         self.addr = Some(String::from(addr));
         Ok(())
-- 
2.43.0


From 14de87cb4f29933d97f07f8b4b842e14f1b39e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 50/57] fix: refuse status codes that cannot be sent in the
 dummy server

---
 wrusdummy/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wrusdummy/src/main.rs b/wrusdummy/src/main.rs
index db507ab..b7d9835 100644
--- a/wrusdummy/src/main.rs
+++ b/wrusdummy/src/main.rs
@@ -36,6 +36,11 @@ fn main() {
             error!("parsing http method in route {}: {}", &name, err);
             process::exit(1);
         });
+        // A status code always has three digits.
+        if !(100..=999).contains(&route.response.status) {
+            error!("invalid status in route {}: {}", &name, route.response.status);
+            process::exit(1);
+        }
         let status = StatusCode::from(route.response.status as usize);
         let path = route.path.clone();
         let content = route.response.content.clone();
-- 
2.43.0


From c17ee2ebc7c287d4ea9bcbc025f64b57f9d0cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 51/57] fix: read a private key that is not the first item of
 its file

---
 wruster/src/streams/tls/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index a5cb911..b5c4bf9 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -222,19 +222,19 @@ impl PrivateKey {
             }
         })?;
         let mut reader = BufReader::new(keyfile);
-        match rustls_pemfile::read_one(&mut reader)? {
-            Some(rustls_pemfile::Item::RSAKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::PKCS8Key(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            None => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
-            _ => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
+        // The file can also contain other items, e.g. the certificate.
+        while let Some(item) = rustls_pemfile::read_one(&mut reader)? {
+            if let rustls_pemfile::Item::RSAKey(key)
+            | rustls_pemfile::Item::PKCS8Key(key)
+            | rustls_pemfile::Item::ECKey(key) = item
+            {
+                return Ok(PrivateKey(rustls::PrivateKey(key)));
+            }
         }
+        Err(io::Error::new(
+            io::ErrorKind::Other,
+            format!("no private key found in {} ", path),
+        ))
     }
 }
 
-- 
2.43.0


From b857cceeca226281a9b878bd58c653a8b889913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 52/57] fix: tell a HEAD request by the method that was
 received

---
 wruster/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 941e662..d13e61d 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -638,12 +638,15 @@ where
     T: Stream + 'static,
 {
     let connection_open: bool;
+    let mut only_head = false;
     let read_timeout = Some(timeouts.read_request_timeout);
     let write_timeout = Some(timeouts.write_response_timeout);
 
     let (request, mut response) = match requests.read_request() {
         Ok(mut request) => {
             connection_open = request.is_connection_persistent();
+            // The response to a HEAD request never has a body.
+            only_head = request.method == HttpMethod::HEAD;
             if !resp_stream.start_exchange() {
                 debug!("server stopped, closing connection with {}", source_addr);
                 return false;
@@ -665,9 +668,6 @@ where
         },
     };
 
-    // The response to a HEAD request never has a body.
-    let only_head = matches!(&request, Some(request) if request.method == HttpMethod::HEAD);
-
     // Ensure the request body (if any) is read.
     if let Some(mut request) = request {
         let body = request.body.as_mut();
-- 
2.43.0


From 6598f876faf2f89780a0bb658eeddec8552ece0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 53/57] fix: close the connection after a response that carries
 the close option

---
 wruster/src/http/mod.rs | 2 +-
 wruster/src/lib.rs      | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index aeb20a7..9652bc5 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -232,7 +232,7 @@ fn is_version_persistent(version: &str, headers: &Headers) -> bool {
 
 /// Returns true if any of the comma separated values of the Connection headers
 /// is the given option: https://datatracker.ietf.org/doc/html/rfc7230#section-6.1.
-fn has_connection_option(headers: &Headers, option: &str) -> bool {
+pub(crate) fn has_connection_option(headers: &Headers, option: &str) -> bool {
     let values = headers.get("Connection").into_iter().flatten();
     values
         .flat_map(|value| value.split(','))
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index d13e61d..c983dbb 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -694,6 +694,10 @@ where
         return false;
     };
 
+    // A server that sends the close option must close the connection:
+    // https://datatracker.ietf.org/doc/html/rfc7230#section-6.6.
+    let connection_open = connection_open && !has_connection_option(&response.headers, "close");
+
     // The handler can have moved the request body out of the request.
     if let Err(err) = requests.discard_body() {
         error!("error discarding request body, error info: {}", err);
-- 
2.43.0


From fa1eea47a367cfa72ed390000ec25b3f54e49880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 54/57] fix: normalise the path of a request in time
 proportional to its length

---
 wruster/src/router/mod.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/wruster/src/router/mod.rs b/wruster/src/router/mod.rs
index a569291..c59f9c1 100644
--- a/wruster/src/router/mod.rs
+++ b/wruster/src/router/mod.rs
@@ -123,6 +123,8 @@ where
 impl Normalize for path::PathBuf {
     fn normalize(&self) -> Result<Self, &str> {
         let mut normalized = path::PathBuf::new();
+        // Finding the parent of a path takes a time that depends on its length.
+        let mut names = Vec::new();
         if !self.has_root() {
             return Err("invalid path");
         }
@@ -132,22 +134,16 @@ impl Normalize for path::PathBuf {
                 Component::Prefix(_) => normalized.push(Component::RootDir),
                 Component::CurDir => continue,
                 Component::ParentDir => {
-                    match normalized.parent() {
-                        None => {
-                            return Err("invalid path");
-                        }
-                        Some(parent) => {
-                            let mut new_parent = path::PathBuf::new();
-                            new_parent.push(parent);
-                            normalized = new_parent;
-                        }
-                    };
+                    if names.pop().is_none() {
+                        return Err("invalid path");
+                    }
                 }
                 Component::Normal(dir) => {
-                    normalized.push(dir);
+                    names.push(dir);
                 }
             };
         }
+        normalized.extend(names);
         Ok(normalized)
     }
 }
-- 
2.43.0


From 856f858e697ea6a1369851cd6a0937e397718c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 55/57] fix: let a body be discarded when more was read than
 its content length, and more than once

---
 wruster/src/http/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 9652bc5..a9db11e 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -584,11 +584,10 @@ impl Body {
     Ensures the content length specified in the body is read from the underlying reader.
     */
     pub fn ensure_read(&mut self) -> Result<(), HttpError> {
-        if self.bytes_read == self.content_length {
-            return Ok(());
-        }
-        let n = self.content_length - self.bytes_read;
-        match io::copy(&mut self.content.by_ref().take(n), &mut io::sink()) {
+        // More than the content length can have been read from a body created with
+        // [`Body::new`], or from one whose content length was changed.
+        let n = self.content_length.saturating_sub(self.bytes_read);
+        match io::copy(&mut self.by_ref().take(n), &mut io::sink()) {
             Ok(_) => Ok(()),
             Err(err) => Err(HttpError::from(err)),
         }
-- 
2.43.0


From 0d7afc376ecb7aaff1bd9a9de6e3d0700c3ae942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 56/57] fix: reading a request body after its end was discarded
 does not wait for more data

---
 wruster/src/http/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index a9db11e..b068855 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -291,6 +291,10 @@ impl<T: io::Read> Read for RequestReader<T> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let pending = self.pending_body.get();
         let max = buf.len().min(pending.try_into().unwrap_or(usize::MAX));
+        // A read of no bytes could wait for the next request.
+        if max == 0 {
+            return Ok(0);
+        }
         let bytes_read = self.reader.borrow_mut().read(&mut buf[..max])?;
         self.pending_body.set(pending - bytes_read as u64);
         Ok(bytes_read)
-- 
2.43.0


From 4462f41dfa1d36c8e778b27c443ae8ec6e3de809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 57/57] fix: open the file that was checked when serving static
 files

---
 wruster_handlers/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 13bfd29..57b3298 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -67,14 +67,22 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
     }
 
-    // The links must not lead outside the directory either.
-    if let Ok(real_path) = path.canonicalize() {
-        if !real_path.starts_with(&base_path) {
-            return Response::from_status(StatusCode::NotFound);
+    // The links must not lead outside the directory either. What is checked
+    // is what is opened, the links can change in between.
+    let real_path = match path.canonicalize() {
+        Ok(real_path) => real_path,
+        Err(err) => {
+            if let io::ErrorKind::NotFound = err.kind() {
+                return Response::from_status(StatusCode::NotFound);
+            }
+            return Response::from_status(StatusCode::InternalServerError);
         }
+    };
+    if !real_path.starts_with(&base_path) {
+        return Response::from_status(StatusCode::NotFound);
     }
 
-    let metadata = match fs::metadata(&path) {
+    let metadata = match fs::metadata(&real_path) {
         Ok(metadata) => metadata,
         Err(err) => {
             if let io::ErrorKind::NotFound = err.kind() {
@@ -88,7 +96,7 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         return Response::from_status(StatusCode::NotFound);
     }
 
-    let content = match fs::File::open(&path) {
+    let content = match fs::File::open(&real_path) {
         Ok(content) => content,
         Err(err) => {
             if let io::ErrorKind::NotFound = err.kind() {
-- 
2.43.0

