From b00f30b61f7a2a02d6d57e13af94146669a34472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 01/17] verif: add access hooks guarded by cfg(plusendi_verif)

---
 src/crc16.rs      | 6 ++++++
 src/fbb.rs        | 6 ++++++
 src/lib.rs        | 9 +++++++++
 src/lzhuf.rs      | 6 ++++++
 src/modem/vara.rs | 6 ++++++
 src/types.rs      | 6 ++++++
 6 files changed, 39 insertions(+)

diff --git a/src/crc16.rs b/src/crc16.rs
index 910f466..3799990 100644
--- a/src/crc16.rs
+++ b/src/crc16.rs
@@ -73,3 +73,9 @@ mod tests {
 
     }
 }
+
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HOOKS"), "/crc16.rs"));
+}
diff --git a/src/fbb.rs b/src/fbb.rs
index 4e58cbb..d128aaa 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -415,3 +415,9 @@ mod tests {
     //     Err(color_eyre::eyre::eyre!("just need a forced failure"))
     // }
 }
+
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HOOKS"), "/fbb.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index dd1adf7..3335c78 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -145,3 +145,12 @@ fn test() -> Traffic {
         body: String::from("THIS IS A TEST OF A PROGRAM I WROTE TO ASSIST ME IN PUSHING TRAFFIC INTO THE DIGITAL TRAFFIC NETWORK 73"),
     }
 }
+
+#[cfg(plusendi_verif)]
+pub mod verif {
+    pub use crate::crc16::verif as crc16;
+    pub use crate::fbb::verif as fbb;
+    pub use crate::lzhuf::verif as lzhuf;
+    pub use crate::modem::vara::verif as vara;
+    pub use crate::types::verif as types;
+}
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b807f61..f1e4a2c 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -848,3 +848,9 @@ mod tests2 {
         Ok(())
     }
 }
+
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HOOKS"), "/lzhuf.rs"));
+}
diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bc204d1..82897e3 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -896,3 +896,9 @@ impl<'a> AsyncWrite for VaraStream<'a> {
         self.tnc.data.is_write_vectored()
     }
 }
+
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HOOKS"), "/vara.rs"));
+}
diff --git a/src/types.rs b/src/types.rs
index 1fb387c..c4de861 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -62,3 +62,9 @@ mod tests {
         Ok(())
     }
 }
+
+#[cfg(plusendi_verif)]
+pub mod verif {
+    use super::*;
+    include!(concat!(env!("PLUSENDI_VERIF_HOOKS"), "/types.rs"));
+}
-- 
2.43.0


From ad59e62d8cd2ff439ace51a538a60dbe3842a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 02/17] fix: keep the high bits of LZHUF match positions above
 255

The position prefix was shifted as a u8, so every match further than 256
bytes back was decoded from the wrong place.
---
 src/lzhuf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index f1e4a2c..c209ea3 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -655,14 +655,14 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
     #[tracing::instrument(skip(self))]
     fn decode_position(&mut self) -> Option<u16> {
         let mut i = self.stream.get_byte()? as u16;
-        let c = DECODE_CODE[i as usize] << 6;
+        let c = (DECODE_CODE[i as usize] as u16) << 6;
         let mut j = DECODE_LEN[i as usize];
 
         j -= 2;
         for _ in (1..=j).rev() {
             i = (i << 1) + self.stream.get_bit()? as u16;
         }
-        Some(c as u16 | (i & 0x3f))
+        Some(c | (i & 0x3f))
     }
 }
 
-- 
2.43.0


From 942aa2fc226fc95cd220bb37bb9247107b6a5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 03/17] fix: reject LZHUF matches that overrun the output
 buffer

A match longer than the space left indexed past the end of the buffer and
panicked on untrusted input.
---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index c209ea3..f5529b0 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -629,6 +629,9 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
             } else {
                 let i = (self.state.r.wrapping_sub(self.decode_position().ok_or(UnexpectedEof)?).wrapping_sub(1)) & (N - 1);
                 let j = c - 255 + THRESHOLD;
+                if j as usize > buffer.len() - count {
+                    return Err(UnexpectedEof);
+                }
                 for k in 0..j {
                     let c = self.state.text_buffer[((i + k) & (N - 1)) as usize];
                     buffer[count] = c;
-- 
2.43.0


From 74721a2d54c1e5e3bcf4a660945f46e52efede7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:59 +0000
Subject: [PATCH 04/17] fix: encode empty input as an empty LZHUF stream

The main loop subtracted from a zero length, panicking in debug builds and
looping in release builds.
---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index f5529b0..ed8d87b 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -536,6 +536,9 @@ impl<'a> Encoder<'a> {
             }
             len += 1;
         }
+        if len == 0 {
+            return;
+        }
         for i in 1..=F {
             self.insert_node(r - i);
         }
-- 
2.43.0


From ab0987b3ebac9800df36194d7800f4b961de80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 05/17] fix: do not truncate LZHUF codes of 16 bits and more

Adaptive Huffman codes reach 18 bits once the tree is skewed. Gathering them
in a u16 dropped the leading-edge bits and overflowed the shift in put_code,
so such messages came out corrupted.
---
 src/lzhuf.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index ed8d87b..4e63e72 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -152,7 +152,7 @@ impl LzHufState {
 }
 
 struct Bitbuffer<'a> {
-    bit_buffer: u16,
+    bit_buffer: u32,
     bit_pos: u8,
     output: &'a mut Vec<u8>,
 }
@@ -166,21 +166,13 @@ impl<'a> Bitbuffer<'a> {
         }
     }
 
-    fn put_code(&mut self, l: u8, c: u16) {
+    fn put_code(&mut self, l: u8, c: u32) {
         self.bit_buffer |= c >> self.bit_pos;
         self.bit_pos += l;
-        if self.bit_pos >= 8 {
-            self.output.push((self.bit_buffer >> 8) as u8);
+        while self.bit_pos >= 8 {
+            self.output.push((self.bit_buffer >> 24) as u8);
+            self.bit_buffer = self.bit_buffer << 8;
             self.bit_pos -= 8;
-            if self.bit_pos >= 8 {
-                self.output.push(self.bit_buffer as u8);
-                // self.codesize += 2;
-                self.bit_pos -= 8;
-                self.bit_buffer = c << (l - self.bit_pos) as usize;
-            } else {
-                self.bit_buffer = self.bit_buffer << 8;
-                // self.codesize += 1;
-            }
         }
     }
 
@@ -190,7 +182,7 @@ impl<'a> Bitbuffer<'a> {
 impl<'a> Drop for Bitbuffer<'a> {
     fn drop(&mut self) {
         if self.bit_pos > 0 {
-            self.output.push((self.bit_buffer >> 8) as u8);
+            self.output.push((self.bit_buffer >> 24) as u8);
         }
     }
 }
@@ -497,13 +489,13 @@ impl<'a> Encoder<'a> {
     }
 
     fn encode_char(&mut self, c: u16) {
-        let mut i = 0u16;
+        let mut i = 0u32;
         let mut j = 0u8;
         let mut k = self.state.parents[(c + T) as usize];
         loop {
             i = i >> 1;
             if k & 1 != 0 {
-                i = i.wrapping_add(0x8000);
+                i = i.wrapping_add(0x8000_0000);
             }
             j += 1;
 
@@ -519,8 +511,8 @@ impl<'a> Encoder<'a> {
 
     fn encode_position(&mut self, c: u16) {
         let i = c >> 6;
-        self.output.put_code(p_len[i as usize], (p_code[i as usize] as u16) << 8);
-        self.output.put_code(6, (c & 0x3f) << 10);
+        self.output.put_code(p_len[i as usize], (p_code[i as usize] as u32) << 24);
+        self.output.put_code(6, ((c & 0x3f) as u32) << 26);
     }
 
     fn encode<I: IntoIterator<IntoIter=Y, Item = u8>, Y: Iterator<Item = u8>>(&mut self, input: I) {
-- 
2.43.0


From aa8a5c90a166d70f8746eff15e47901a34f61cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 06/17] fix: separate the target from 'via' in two-hop CONNECT
 commands

---
 src/modem/vara.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 82897e3..bd97632 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -202,7 +202,7 @@ impl fmt::Display for ConnectPath {
         match self {
             ConnectPath::Direct => Ok(()),
             ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater),
-            ConnectPath::TwoHops { first, second } => write!(f, "via {} {}", first, second),
+            ConnectPath::TwoHops { first, second } => write!(f, " via {} {}", first, second),
         }
     }
 }
-- 
2.43.0


From 6b453d15059c7eb4ca5031fb0cc17db5e9c2b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 07/17] fix: require the whole string to be a call sign in
 StationId

The pattern was not anchored, so any text containing something shaped like a
call sign was accepted, including spaces and carriage returns that end up in
the TNC command stream.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index c4de861..4eebd7d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -5,7 +5,7 @@ use nom::error::VerboseError;
 use regex::Regex;
 use thiserror::Error;
 
-static STATION: Lazy<Regex> = lazy_regex!(r#"([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)"#);
+static STATION: Lazy<Regex> = lazy_regex!(r#"^([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)$"#);
 
 #[derive(Debug, Error)]
 #[error("invalid station identity")]
-- 
2.43.0


From 1c83a80d02e3232fc020ea85606399c335b28156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 08/17] fix: do not overflow while reporting a checksum
 mismatch

Negating a sum of 0x80 as i8 overflows and panicked when warnings were logged.
---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index d128aaa..c117fe8 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -71,7 +71,7 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
                 let checksum_ok = checksum.wrapping_add(check) == 0;
 
                 if !checksum_ok {
-                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", -(check as i8)).as_str(), "checksum mismatch");
+                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", (check as i8).wrapping_neg()).as_str(), "checksum mismatch");
                 }
 
                 let mut crc = Crc16::new();
-- 
2.43.0


From be79f171494f7ade21cf1f4b279f739258e9b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 09/17] fix: end the modem session when the TNC closes the
 control port

A closed socket is always readable and reads zero bytes, so the control loop
spun forever and commands waiting for a reply were never answered.
---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bd97632..b840057 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -483,6 +483,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
         Err(err) => return Err(err.into()),
+        Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "control connection closed by tnc").into()),
         Ok(bytes) => {
             tracing::trace!(bytes, "received bytes from command port");
         }
-- 
2.43.0


From c324ee24195b34dc902cd88eb9d0b56b9b6e45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 10/17] fix: wait for the control port while draining replies

The drain loop polled the socket without ever yielding to the runtime.
---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b840057..c4ff8b1 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -456,6 +456,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
+        stream.readable().await?;
         let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
-- 
2.43.0


From 1db419f0f004fa9e434ec831fe6c61a402dad2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 11/17] fix: ignore stale connection changes when connecting
 again

The disconnect that ended the previous session was still unseen by the status
receiver, so a second connect failed at once while the TNC went on connecting.
---
 src/modem/vara.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index c4ff8b1..732c752 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -752,6 +752,9 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        // Only changes caused by this command count, not ones left unseen by an earlier session.
+        self.status.connection.borrow_and_update();
+
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
-- 
2.43.0


From 39e7413b1b4484796739cd0704e928312e6878a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 12/17] fix: stop watching for a remote disconnect once the
 modem task is gone

changed() fails immediately from then on and the loop never yielded again.
Dropping the sender marks the stream as disconnected.
---
 src/modem/vara.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 732c752..58ac564 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -778,7 +778,9 @@ impl VaraTnc {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    let _ = subscriber.changed().await;
+                    if subscriber.changed().await.is_err() {
+                        break;
+                    }
                     if subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
                         break;
-- 
2.43.0


From fe9ce652fc8cb1600a65debb9f42e4787318da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 13/17] fix: allow further I/O on a stream after the remote end
 disconnected

The oneshot receiver was polled again after it had resolved, which panics.
---
 src/modem/vara.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 58ac564..71032eb 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -791,7 +791,10 @@ impl VaraTnc {
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: Some(force_dc),
-                remote_disconnect: remote_disconnect,
+                remote_disconnect: RemoteDisconnect {
+                    signal: remote_disconnect,
+                    resolved: false,
+                },
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -810,7 +813,28 @@ impl VaraTnc {
 pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
-    remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    remote_disconnect: RemoteDisconnect,
+}
+
+/// Resolves once the remote end has disconnected, and stays resolved from then on.
+#[derive(Debug)]
+struct RemoteDisconnect {
+    signal: tokio::sync::oneshot::Receiver<()>,
+    resolved: bool,
+}
+
+impl Future for RemoteDisconnect {
+    type Output = ();
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        if !self.resolved {
+            match Pin::new(&mut self.signal).poll(cx) {
+                Poll::Pending => return Poll::Pending,
+                Poll::Ready(_) => self.resolved = true,
+            }
+        }
+        Poll::Ready(())
+    }
 }
 
 impl<'a> VaraStream<'a> {
-- 
2.43.0


From ce0276e579a9856e7c67645232e241508d3f4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 14/17] fix: do not panic when tracing received bytes that are
 not UTF-8

Enabling trace logging made the receive loops panic on such input.
---
 src/main.rs             | 8 ++++----
 src/modem/vara.rs       | 4 ++--
 src/rig/elecraft/kx3.rs | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e7f0714..9a89790 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -114,7 +114,7 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
@@ -122,7 +122,7 @@ async fn main() -> color_eyre::Result<()> {
                         }
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
@@ -165,12 +165,12 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 71032eb..bb9b378 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -495,7 +495,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         while data.len() > 0 {
             match line(&data).try_map_into_str().map_err(stringify_input) {
                 Ok((remaining, line)) => {
-                    tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                    tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                     data = remaining;
 
                     match nom::combinator::all_consuming(tnc_response)(line).try_map_into_str().map_err(stringify_input).finish() {
@@ -539,7 +539,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                     }
                 },
                 Err(err) if err.is_incomplete() => {
-                    tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                    tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                     break
                 },
                 Err(err) => {
diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index c2575d3..1987ca1 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -73,7 +73,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                     while data.len() > 0 {
                         match line(&data) {
                             Ok((remaining, line)) => {
-                                tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                                tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                                 data = remaining;
                                 //
                                 // match nom::combinator::all_consuming(update)(line).map_err(|e| e.map_input(|i| String::from_utf8(i.into()).unwrap())).finish() {
@@ -102,7 +102,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                                 // }
                             },
                             Err(err) if err.is_incomplete() => {
-                                tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                                tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                                 break
                             },
                             Err(err) => {
-- 
2.43.0


From 8ea57cc24f96bc5ba832cbda1831b4e596b06f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 15/17] fix: end rig control when the port is closed

Reading zero bytes was treated as progress, so the loop spun forever.
---
 src/rig/elecraft/kx3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 1987ca1..e7fa7ec 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -64,6 +64,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
             result = stream.read_buf(&mut upd_buffer) => {
                 match result {
                     Err(err) => return Err(err.into()),
+                    Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "rig control port closed").into()),
                     Ok(bytes) => {
                         tracing::trace!(bytes, "received bytes from command port");
                     }
-- 
2.43.0


From 2c3e4696a7eec7251b3b8690c06ab1f6480deeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 16/17] fix: reject a malformed block header instead of waiting
 for more input

---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index c117fe8..078f76c 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -19,7 +19,7 @@ fn soh(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 }
 
 fn nul(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-    tag(&[0x00])(data)
+    nom::bytes::complete::tag(&[0x00])(data)
 }
 
 fn stx(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-- 
2.43.0


From 84db4880235cb4a95865a93369e2abd5d4169687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 17/17] fix: deliver replies read before an unreadable line
 from the TNC

---
 src/modem/vara.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bb9b378..f9ee587 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -443,7 +443,8 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 }
             },
             _ = stream.readable() => {
-                let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
+                let mut results = Vec::new();
+                let outcome = do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut results);
                 for result in results {
                     if let Some(reply) = response_queue.pop_front() {
                         let _ = reply.send(result);
@@ -451,13 +452,15 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                         tracing::warn!("mismatched reply queue");
                     }
                 }
+                outcome?;
             }
         );
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
         stream.readable().await?;
-        let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
+        let mut results = Vec::new();
+        let outcome = do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut results);
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
                 let _ = reply.send(result);
@@ -465,6 +468,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 tracing::warn!("mismatched reply queue");
             }
         }
+        outcome?;
     }
     tracing::info!("all replies sent; exiting command loop");
     Ok(())
@@ -478,11 +482,10 @@ fn stringify_input<T: std::fmt::Display>(error: nom::Err<VerboseError<T>>) -> no
     })
 }
 
-#[tracing::instrument(skip(stream, upd_buffer, tx), err)]
-fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender) -> color_eyre::Result<Vec<CommandResult>> {
-    let mut to_acknowledge = Vec::new();
+#[tracing::instrument(skip(stream, upd_buffer, tx, to_acknowledge), err)]
+fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender, to_acknowledge: &mut Vec<CommandResult>) -> color_eyre::Result<()> {
     match stream.try_read_buf(upd_buffer) {
-        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
+        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(()),
         Err(err) => return Err(err.into()),
         Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "control connection closed by tnc").into()),
         Ok(bytes) => {
@@ -556,7 +559,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         *upd_buffer = new;
         tracing::trace!(bytes = upd_buffer.len(), "retained incomplete parts");
     }
-    Ok(to_acknowledge)
+    Ok(())
 }
 
 #[derive(Debug)]
-- 
2.43.0

