From 8fc610cf6b9e19f5245c9251f3289981efa46419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 01/24] verif: guarded include points for verification
 harnesses (cfg plusendi_verif)

---
 src/crc16.rs            | 7 +++++++
 src/fbb.rs              | 7 +++++++
 src/lib.rs              | 7 +++++++
 src/lzhuf.rs            | 7 +++++++
 src/modem/vara.rs       | 7 +++++++
 src/parser.rs           | 7 +++++++
 src/rig/elecraft/kx3.rs | 7 +++++++
 src/types.rs            | 7 +++++++
 8 files changed, 56 insertions(+)

diff --git a/src/crc16.rs b/src/crc16.rs
index 910f466..d8dc89d 100644
--- a/src/crc16.rs
+++ b/src/crc16.rs
@@ -73,3 +73,10 @@ mod tests {
 
     }
 }
+
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/crc16.rs"));
+}
diff --git a/src/fbb.rs b/src/fbb.rs
index 4e58cbb..d089219 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -415,3 +415,10 @@ mod tests {
     //     Err(color_eyre::eyre::eyre!("just need a forced failure"))
     // }
 }
+
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/fbb.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index dd1adf7..bcf411a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -145,3 +145,10 @@ fn test() -> Traffic {
         body: String::from("THIS IS A TEST OF A PROGRAM I WROTE TO ASSIST ME IN PUSHING TRAFFIC INTO THE DIGITAL TRAFFIC NETWORK 73"),
     }
 }
+
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/root.rs"));
+}
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b807f61..336026f 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -848,3 +848,10 @@ mod tests2 {
         Ok(())
     }
 }
+
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/lzhuf.rs"));
+}
diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bc204d1..e911d64 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -896,3 +896,10 @@ impl<'a> AsyncWrite for VaraStream<'a> {
         self.tnc.data.is_write_vectored()
     }
 }
+
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/vara.rs"));
+}
diff --git a/src/parser.rs b/src/parser.rs
index 2ef9ee3..a7b3b80 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -119,3 +119,10 @@ impl<'a> MappableParserInputError for Error<&'a str> {
         }
     }
 }
+
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/parser.rs"));
+}
diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index c2575d3..245b11d 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -125,3 +125,10 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
     tracing::info!("exiting command loop");
     Ok(())
 }
+
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/kx3.rs"));
+}
diff --git a/src/types.rs b/src/types.rs
index 1fb387c..3954965 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -62,3 +62,10 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HARNESS"), "/types.rs"));
+}
-- 
2.43.0


From 2086727126b0b7cfa1c75e93fcbea3aebd463840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 02/24] fix: LZHUF decoder dropped the upper bits of a match
 distance

---
 src/lzhuf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 336026f..1fc2181 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -655,14 +655,14 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
     #[tracing::instrument(skip(self))]
     fn decode_position(&mut self) -> Option<u16> {
         let mut i = self.stream.get_byte()? as u16;
-        let c = DECODE_CODE[i as usize] << 6;
+        let c = (DECODE_CODE[i as usize] as u16) << 6;
         let mut j = DECODE_LEN[i as usize];
 
         j -= 2;
         for _ in (1..=j).rev() {
             i = (i << 1) + self.stream.get_bit()? as u16;
         }
-        Some(c as u16 | (i & 0x3f))
+        Some(c | (i & 0x3f))
     }
 }
 
-- 
2.43.0


From 3e8613d4dbf0f9ff8e4dd82b01233d43a1eadc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 03/24] fix: LZHUF decoder wrote past the output when a match
 crosses its end

---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 1fc2181..f269f81 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -630,6 +630,9 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 let i = (self.state.r.wrapping_sub(self.decode_position().ok_or(UnexpectedEof)?).wrapping_sub(1)) & (N - 1);
                 let j = c - 255 + THRESHOLD;
                 for k in 0..j {
+                    if count == buffer.len() {
+                        break;
+                    }
                     let c = self.state.text_buffer[((i + k) & (N - 1)) as usize];
                     buffer[count] = c;
                     self.state.update_text_buffer(c);
-- 
2.43.0


From 800a62806f617cc4852fa55705b3f19565869a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 04/24] fix: LZHUF encoder panicked on empty input

---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index f269f81..f29005d 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -536,6 +536,9 @@ impl<'a> Encoder<'a> {
             }
             len += 1;
         }
+        if len == 0 {
+            return;
+        }
         for i in 1..=F {
             self.insert_node(r - i);
         }
-- 
2.43.0


From bb5f0561bfa6840d7ad5576c98d82e54b4fd7f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 05/24] fix: LZHUF encoder lost bits of codes longer than 15
 bits

---
 src/lzhuf.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index f29005d..89d3595 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -497,13 +497,13 @@ impl<'a> Encoder<'a> {
     }
 
     fn encode_char(&mut self, c: u16) {
-        let mut i = 0u16;
+        let mut i = 0u32;
         let mut j = 0u8;
         let mut k = self.state.parents[(c + T) as usize];
         loop {
             i = i >> 1;
             if k & 1 != 0 {
-                i = i.wrapping_add(0x8000);
+                i |= 0x8000_0000;
             }
             j += 1;
 
@@ -513,7 +513,12 @@ impl<'a> Encoder<'a> {
             }
         }
 
-        self.output.put_code(j, i);
+        while j > 8 {
+            self.output.put_code(8, ((i >> 16) & 0xff00) as u16);
+            i <<= 8;
+            j -= 8;
+        }
+        self.output.put_code(j, (i >> 16) as u16);
         self.state.update(c as u16);
     }
 
-- 
2.43.0


From 9e638c951b7cf9a5cce17ceb9808880a5163c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 06/24] fix: reporting a checksum mismatch panicked when the
 sum was 0x80

---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index d089219..a048e08 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -71,7 +71,7 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
                 let checksum_ok = checksum.wrapping_add(check) == 0;
 
                 if !checksum_ok {
-                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", -(check as i8)).as_str(), "checksum mismatch");
+                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", (check as i8).wrapping_neg()).as_str(), "checksum mismatch");
                 }
 
                 let mut crc = Crc16::new();
-- 
2.43.0


From a4b6b28bccad4f9c37650a9dd8c20ebbbb72426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 07/24] fix: a malformed complete header was reported as
 incomplete

---
 src/fbb.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index a048e08..f74b5e3 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -18,8 +18,9 @@ fn soh(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
     tag(&[0x01])(data)
 }
 
-fn nul(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-    tag(&[0x00])(data)
+// Not streaming: all the bytes of the header are there when it is looked at
+fn header_nul(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
+    nom::bytes::complete::tag(&[0x00])(data)
 }
 
 fn stx(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
@@ -106,14 +107,14 @@ fn header(data: &[u8]) -> IResult<&[u8], (&str, u32), VerboseError<&[u8]>> {
                 nom::bytes::complete::take_while(|c: u8| c.is_ascii_graphic() || c == b' '),
                 |bytes: &[u8]| unsafe { std::str::from_utf8_unchecked(bytes) }
             ),
-            nul,
+            header_nul,
             nom::combinator::map_res(
                 nom::bytes::complete::take_while(is_digit),
                 |bytes: &[u8]| {
                     u32::from_str_radix(unsafe { std::str::from_utf8_unchecked(bytes) }, 10)
                 }),
         ),
-        nul
+        header_nul
     ))(header)?;
     Ok((rest, (title, offset)))
 }
-- 
2.43.0


From 8990c111d4785e52c8e003965fa7969fc4370cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 08/24] fix: any text containing a call sign was accepted as a
 station identity

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 3954965..cdf665d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -5,7 +5,7 @@ use nom::error::VerboseError;
 use regex::Regex;
 use thiserror::Error;
 
-static STATION: Lazy<Regex> = lazy_regex!(r#"([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)"#);
+static STATION: Lazy<Regex> = lazy_regex!(r#"^([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)(-[A-Za-z0-9]{1,2})?\z"#);
 
 #[derive(Debug, Error)]
 #[error("invalid station identity")]
-- 
2.43.0


From 741e0391446f862684084d04fa6a53e0603b2851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 09/24] fix: a connect command through two digipeaters lacked a
 space

---
 src/modem/vara.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index e911d64..d20220a 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -202,7 +202,7 @@ impl fmt::Display for ConnectPath {
         match self {
             ConnectPath::Direct => Ok(()),
             ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater),
-            ConnectPath::TwoHops { first, second } => write!(f, "via {} {}", first, second),
+            ConnectPath::TwoHops { first, second } => write!(f, " via {} {}", first, second),
         }
     }
 }
-- 
2.43.0


From 4271d1bd9a10881b7f039c05b330c3c9284f2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 10/24] fix: the modem task spun forever once the modem closed
 the control link

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index d20220a..e7a96c9 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -483,6 +483,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
         Err(err) => return Err(err.into()),
+        Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
         Ok(bytes) => {
             tracing::trace!(bytes, "received bytes from command port");
         }
-- 
2.43.0


From e1677eb7f3336adfcbbb7a32a4afa6145771ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 11/24] fix: waiting for the last replies blocked the executor

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index e7a96c9..42150b1 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -456,6 +456,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
+        stream.readable().await?;
         let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
-- 
2.43.0


From f598c9c44585415d6ef0a5cd5dc162b41964cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 12/24] fix: connect took an earlier connection report for its
 own outcome

---
 src/modem/vara.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 42150b1..3f85dfd 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -752,6 +752,8 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        // only reports from here on tell about this attempt
+        self.status.connection.borrow_and_update();
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
-- 
2.43.0


From 79e0e79e4ab487be5010d841948d7db26cec2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 13/24] fix: the disconnect watcher spun forever once the modem
 task had ended

---
 src/modem/vara.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 3f85dfd..cd6bd88 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -777,7 +777,9 @@ impl VaraTnc {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    let _ = subscriber.changed().await;
+                    if subscriber.changed().await.is_err() {
+                        break;
+                    }
                     if subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
                         break;
-- 
2.43.0


From da2bcacbb9023e3fc2a20658f06629e854868f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 14/24] fix: using a stream again after the remote end
 disconnected panicked

---
 src/modem/vara.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index cd6bd88..110325a 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -790,7 +790,7 @@ impl VaraTnc {
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: Some(force_dc),
-                remote_disconnect: remote_disconnect,
+                remote_disconnect: Some(remote_disconnect),
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -809,7 +809,18 @@ impl VaraTnc {
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
-    remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    /// None once the disconnection was noticed
+    remote_disconnect: Option<tokio::sync::oneshot::Receiver<()>>,
+}
+
+fn poll_disconnected(remote_disconnect: &mut Option<tokio::sync::oneshot::Receiver<()>>, cx: &mut Context<'_>) -> Poll<()> {
+    if let Some(rx) = remote_disconnect {
+        if Pin::new(rx).poll(cx).is_pending() {
+            return Poll::Pending;
+        }
+        *remote_disconnect = None;
+    }
+    Poll::Ready(())
 }
 
 impl<'a> VaraStream<'a> {
@@ -838,9 +849,9 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_disconnected(this.remote_disconnect, cx) {
             Poll::Pending => {}
-            Poll::Ready(_) => {
+            Poll::Ready(()) => {
                 return Poll::Ready(Ok(()));
             }
         }
@@ -852,9 +863,9 @@ impl<'a> AsyncRead for VaraStream<'a> {
 impl<'a> AsyncWrite for VaraStream<'a> {
     fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize, Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_disconnected(this.remote_disconnect, cx) {
             Poll::Pending => {}
-            Poll::Ready(_) => {
+            Poll::Ready(()) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
@@ -864,9 +875,9 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_disconnected(this.remote_disconnect, cx) {
             Poll::Pending => {}
-            Poll::Ready(_) => {
+            Poll::Ready(()) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
@@ -876,9 +887,9 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_disconnected(this.remote_disconnect, cx) {
             Poll::Pending => {}
-            Poll::Ready(_) => {
+            Poll::Ready(()) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
@@ -888,9 +899,9 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
         let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        match poll_disconnected(this.remote_disconnect, cx) {
             Poll::Pending => {}
-            Poll::Ready(_) => {
+            Poll::Ready(()) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
-- 
2.43.0


From 413da153960d79aa503e2bda073cdf72506b9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 15/24] fix: data received before a disconnection was lost

---
 src/modem/vara.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 110325a..b9d02ef 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -849,14 +849,16 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
         let this = self.project();
-        match poll_disconnected(this.remote_disconnect, cx) {
+        // what arrived before the disconnection is still delivered
+        match Pin::new(&mut **this.tnc).pinned_data().poll_read(cx, buf) {
             Poll::Pending => {}
-            Poll::Ready(()) => {
-                return Poll::Ready(Ok(()));
-            }
+            ready => return ready,
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_read(cx, buf)
+        match poll_disconnected(this.remote_disconnect, cx) {
+            Poll::Pending => Poll::Pending,
+            Poll::Ready(()) => Poll::Ready(Ok(())),
+        }
     }
 }
 
-- 
2.43.0


From f110c021ea549b086458772ec52f250eb8acf114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 16/24] fix: an explicit disconnect was followed by a second
 one

---
 src/modem/vara.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b9d02ef..0623a5a 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -824,12 +824,16 @@ fn poll_disconnected(remote_disconnect: &mut Option<tokio::sync::oneshot::Receiv
 }
 
 impl<'a> VaraStream<'a> {
-    pub async fn disconnect(self) -> color_eyre::Result<()> {
-        self.tnc.send_disconnect().await
+    pub async fn disconnect(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_disconnect().await?;
+        self.force_disconnect = None;
+        Ok(())
     }
 
-    pub async fn abort(self) -> color_eyre::Result<()> {
-        self.tnc.send_abort().await
+    pub async fn abort(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_abort().await?;
+        self.force_disconnect = None;
+        Ok(())
     }
 }
 
-- 
2.43.0


From 30d3ce8121186933232416ab17eafdb86a8e7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 17/24] fix: the rig task spun forever once the serial link
 ended

---
 src/rig/elecraft/kx3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 245b11d..b96b2cf 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -64,6 +64,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
             result = stream.read_buf(&mut upd_buffer) => {
                 match result {
                     Err(err) => return Err(err.into()),
+                    Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
                     Ok(bytes) => {
                         tracing::trace!(bytes, "received bytes from command port");
                     }
-- 
2.43.0


From 28a47631ab81f0c5fcf137c2134593208833ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 18/24] fix: tracing input that is not UTF-8 panicked

---
 src/modem/vara.rs       | 4 ++--
 src/rig/elecraft/kx3.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 0623a5a..364570d 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -495,7 +495,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         while data.len() > 0 {
             match line(&data).try_map_into_str().map_err(stringify_input) {
                 Ok((remaining, line)) => {
-                    tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                    tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                     data = remaining;
 
                     match nom::combinator::all_consuming(tnc_response)(line).try_map_into_str().map_err(stringify_input).finish() {
@@ -539,7 +539,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                     }
                 },
                 Err(err) if err.is_incomplete() => {
-                    tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                    tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                     break
                 },
                 Err(err) => {
diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index b96b2cf..d31a219 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -74,7 +74,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                     while data.len() > 0 {
                         match line(&data) {
                             Ok((remaining, line)) => {
-                                tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                                tracing::trace!(line = String::from_utf8_lossy(line).as_ref(), remaining = String::from_utf8_lossy(remaining).as_ref(), "received complete line");
                                 data = remaining;
                                 //
                                 // match nom::combinator::all_consuming(update)(line).map_err(|e| e.map_input(|i| String::from_utf8(i.into()).unwrap())).finish() {
@@ -103,7 +103,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                                 // }
                             },
                             Err(err) if err.is_incomplete() => {
-                                tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                                tracing::trace!(buffer = String::from_utf8_lossy(data).as_ref(), "incomplete");
                                 break
                             },
                             Err(err) => {
-- 
2.43.0


From af65de3b3eaba1ad89fb306fe19f103ca51aedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 19/24] fix: accept call signs with a suffix in the modem's
 reports

A connection to a station such as W1AW-10 was reported by the modem with the
suffix, the line was refused and the session ended.
---
 src/types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index cdf665d..5e0bd1b 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -33,7 +33,14 @@ impl aliri_braid::Normalizer for StationId {
 }
 
 pub fn callsign(s: &[u8]) -> nom::IResult<&[u8], &StationIdRef, VerboseError<&[u8]>> {
-    let (rest, result) = nom::bytes::complete::take_while_m_n(3,7, |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit())(s)?;
+    let alphanumeric = |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit();
+    let (rest, result) = nom::combinator::recognize(nom::sequence::pair(
+        nom::bytes::complete::take_while_m_n(3, 7, alphanumeric),
+        nom::combinator::opt(nom::sequence::pair(
+            nom::bytes::complete::tag("-"),
+            nom::bytes::complete::take_while_m_n(1, 2, alphanumeric),
+        )),
+    ))(s)?;
     // let cow = if result.iter().any(|&b| b'a' <= b && b <= b'z') {
     //     Cow::Owned(unsafe { String::from_utf8_unchecked(result.to_ascii_uppercase()) })
     // } else {
-- 
2.43.0


From 624229255f2049acd1c76bbf1d6bf05850198e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 20/24] fix: end when the connection ends before the prompt

At the end of the stream every read returns at once without data, and the
program kept reading forever.
---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e7f0714..300f51a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -108,7 +108,10 @@ async fn main() -> color_eyre::Result<()> {
     }
 
     'out: loop {
-        vara_stream.read_buf(&mut read).await?;
+        let count = vara_stream.read_buf(&mut read).await?;
+        if count == 0 {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
-- 
2.43.0


From d8a26d6554f893397baf9c3b96a5ec75755d49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 21/24] fix: accept empty lines from the other station

An empty line was an error that ended the session.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 300f51a..971cdc7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,7 @@ async fn main() -> color_eyre::Result<()> {
     let mut read = bytes::BytesMut::new();
 
     fn line(data: &[u8]) -> nom::IResult<&[u8], &[u8]> {
-        nom::sequence::terminated(nom::bytes::streaming::take_until1("\r"), nom::bytes::streaming::tag("\r"))(data)
+        nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
     'out: loop {
-- 
2.43.0


From 7870e22d5170d5669e8fca5294c2d19ba5b28a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 22/24] fix: log lines that are not UTF-8 without panicking

With trace logging on, such a line, or a read that ended inside a character,
panicked in the log call.
---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 971cdc7..f14a640 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -117,7 +117,7 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
@@ -125,7 +125,7 @@ async fn main() -> color_eyre::Result<()> {
                         }
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
@@ -168,12 +168,12 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
-- 
2.43.0


From 0609cdb3e95969371b19f43752b3bb33ea30b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 23/24] fix: keep what arrives together with the prompt

Lines and parts of lines that came in the same read as the prompt were
dropped, so what was printed depended on how the data was split.
---
 src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f14a640..cff65b6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,7 +107,8 @@ async fn main() -> color_eyre::Result<()> {
         nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
-    'out: loop {
+    let mut prompted = false;
+    while !prompted {
         let count = vara_stream.read_buf(&mut read).await?;
         if count == 0 {
             return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
@@ -121,7 +122,7 @@ async fn main() -> color_eyre::Result<()> {
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
-                            break 'out;
+                            prompted = true;
                         }
                     },
                     Err(err) if err.is_incomplete() => {
@@ -157,7 +158,6 @@ async fn main() -> color_eyre::Result<()> {
     let ident = format!("{}-{}", env!("CARGO_BIN_NAME"), env!("CARGO_PKG_VERSION"));
     let to_be_sent = format!("[{}-B2FWIHJM$]\rFF\r", ident);
     vara_stream.write_all(to_be_sent.as_bytes()).await?;
-    read.clear();
     loop {
         let count = vara_stream.read_buf(&mut read).await?;
         if count == 0 {
-- 
2.43.0


From 433678cb5d69ee4a5f3d8849b3e46647da242b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 24/24] fix: the disconnection wakes a reader that waits while
 another task writes

---
 src/modem/vara.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 364570d..f1259e2 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -775,6 +775,7 @@ impl VaraTnc {
         if self.status.connection.borrow().is_connected() {
             let mut subscriber = self.status.connection.clone();
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
+            let (remote_dc_read, remote_disconnect_read) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
                     if subscriber.changed().await.is_err() {
@@ -782,6 +783,7 @@ impl VaraTnc {
                     }
                     if subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
+                        let _ = remote_dc_read.send(());
                         break;
                     }
                 }
@@ -791,6 +793,7 @@ impl VaraTnc {
                 tnc: self,
                 force_disconnect: Some(force_dc),
                 remote_disconnect: Some(remote_disconnect),
+                remote_disconnect_read: Some(remote_disconnect_read),
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -811,6 +814,8 @@ pub struct VaraStream<'a> {
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
     /// None once the disconnection was noticed
     remote_disconnect: Option<tokio::sync::oneshot::Receiver<()>>,
+    /// The same for the reading side, which another task may be waiting on
+    remote_disconnect_read: Option<tokio::sync::oneshot::Receiver<()>>,
 }
 
 fn poll_disconnected(remote_disconnect: &mut Option<tokio::sync::oneshot::Receiver<()>>, cx: &mut Context<'_>) -> Poll<()> {
@@ -859,7 +864,7 @@ impl<'a> AsyncRead for VaraStream<'a> {
             ready => return ready,
         }
 
-        match poll_disconnected(this.remote_disconnect, cx) {
+        match poll_disconnected(this.remote_disconnect_read, cx) {
             Poll::Pending => Poll::Pending,
             Poll::Ready(()) => Poll::Ready(Ok(())),
         }
-- 
2.43.0

