From ace19acc775cf21f7867b1f87132c290ac80093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:04 +0000
Subject: [PATCH 01/12] fix: sized buffers report a short output buffer instead
 of panicking

Marshaling a TPM2B compared the payload length with the larger of the
capacity and the remaining output space, so an output buffer that holds
the size field but not the payload made the slice copy panic.
---
 marshalable-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index acde6f9..eb48fc3 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -278,7 +278,7 @@ fn derive_tpm2b_simple(
                 let used = self.size.try_marshal(buffer)?;
                 let (_, rest) = buffer.split_at_mut(used);
                 let buffer_marsh = self.get_size() as usize;
-                if buffer_marsh > (core::cmp::max(Self::MAX_BUFFER_SIZE, rest.len())) {
+                if buffer_marsh > core::cmp::min(Self::MAX_BUFFER_SIZE, rest.len()) {
                     return Err(tpm2_rs_marshalable::Error::UnexpectedEndOfBuffer);
                 }
                 rest[..buffer_marsh].copy_from_slice(&self.#field_name[..buffer_marsh]);
-- 
2.43.0


From 0782a5bd5d3dd097078574578802005a59c09ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:19 +0000
Subject: [PATCH 02/12] fix: marshaling a counted array with an oversized count
 returns an error

The element count is a public field on several types; a count above the
array's capacity made the derived marshaling code index out of bounds and
panic. Report ArrayLengthExceeded, as unmarshaling already does.
---
 marshalable-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index eb48fc3..b0a98f3 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -412,6 +412,9 @@ fn get_named_field_marshal<'a>(
         let length_prim =
             get_primitive(&length, basic_field_types.get(length.get_ident().unwrap()))?;
         Ok(quote_spanned! {span =>
+            if self.#length_prim as usize > self.#name.len() {
+                return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+            }
             for i in 0..self.#length_prim as usize {
                 written += self.#name[i].try_marshal(&mut buffer[written..])?;
             }
-- 
2.43.0


From 9e6d10e197bb24afc2b67f5d14f0e6d8be644870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:04 +0000
Subject: [PATCH 03/12] fix: decode handle and session positions of format 1
 response codes

ErrorType::from_mask tested a constant instead of the value, so handle
errors were reported as session errors, and the position of a session
error included the session bit (session 1 decoded as position 9).
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 552e827..8af763a 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -151,7 +151,7 @@ impl ErrorType {
         }
         if val & Self::PARAMETER_MASK != 0 {
             Some(Self::Parameter)
-        } else if Self::SESSION_MASK != 0 {
+        } else if val & Self::SESSION_MASK != 0 {
             Some(Self::Session)
         } else {
             Some(Self::Handle)
@@ -203,7 +203,13 @@ impl ErrorPosition {
         if val & 0x80 == 0 {
             return None;
         }
-        match val & 0xF00 {
+        // Handle and session errors only have a 3 bit number, as the upper bit tells them apart.
+        let mask = if val & ErrorType::PARAMETER_MASK != 0 {
+            0xF00
+        } else {
+            0x700
+        };
+        match val & mask {
             0x100 => Some(Self::Pos1),
             0x200 => Some(Self::Pos2),
             0x300 => Some(Self::Pos3),
-- 
2.43.0


From 66468cc824adc8dd61e4c91309f0e9c263c5a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:04 +0000
Subject: [PATCH 04/12] fix: TPM_RC_SEQUENCE is 0x103

0x102 is not an assigned response code; TpmRc::Sequence in the base crate already has 0x103.
---
 crates/tpm2/src/errors/tpm_rc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index 8af763a..edfded8 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -61,7 +61,7 @@ impl TpmRcError {
     /// Commands not being accepted because of a TPM failure (`TPM_RC_FAILURE`).
     pub const Failure: Self = Self::new(0x101);
     /// Improper use of a sequence handle (`TPM_RC_SEQUENCE`).
-    pub const Sequence: Self = Self::new(0x102);
+    pub const Sequence: Self = Self::new(0x103);
 
     /// Command commandSize value is inconsistent with contents of the command buffer; either the
     /// size is not the same as the octets loaded by the hardware interface layer or the value is
-- 
2.43.0


From 489041c62b1f2d370d50df1b1c30a10cc77cf515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:04 +0000
Subject: [PATCH 05/12] fix: only parse response bytes that were received

The client ignored the slice returned by the connection and parsed the
zeroed remainder of its buffer when the header announced more bytes than
had been received, and panicked when the header announced fewer bytes
than the header itself.
---
 crates/tpm2-client/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 6ed70a5..3485952 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -173,13 +173,16 @@ pub fn run_command_with_handles<
         .map_err(TssError::from)?;
 
     let mut resp_buffer = [0u8; RESP_BUFFER_SIZE];
-    tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
+    let resp_buffer = tpm.transact(&cmd_buffer[..written], &mut resp_buffer)?;
 
-    let (resp_header, read) = read_response_header(&resp_buffer)?;
+    let (resp_header, read) = read_response_header(resp_buffer)?;
     let resp_size = resp_header.size as usize;
     if resp_size > resp_buffer.len() {
         return Err(TssError::from(TssTcsError::OutOfMemory).into());
     }
+    if resp_size < read {
+        return Err(TssError::from(TssTcsError::TpmUnexpected).into());
+    }
     let mut unmarsh = UnmarshalBuf::new(&resp_buffer[read..resp_size]);
     let resp_handles = CmdT::RespHandles::try_unmarshal(&mut unmarsh).map_err(TssError::from)?;
     if resp_header.tag == TpmSt::Sessions {
-- 
2.43.0


From 5a96f34ce837f30d66a6b542b1e52aa94acc3e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:31 +0000
Subject: [PATCH 06/12] fix: report a command buffer too short for the
 authorization size

Slicing the buffer past the reserved size field panicked when fewer than
four bytes were left for the authorization area.
---
 crates/tpm2-client/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tpm2-client/src/lib.rs b/crates/tpm2-client/src/lib.rs
index 3485952..28ebed2 100644
--- a/crates/tpm2-client/src/lib.rs
+++ b/crates/tpm2-client/src/lib.rs
@@ -82,7 +82,7 @@ pub fn write_command_sessions<
     if sessions.is_empty() {
         return Ok(0);
     }
-    let mut auth_offset = size_of::<u32>();
+    let mut auth_offset = 0u32.try_marshal(buffer)?;
     let (s1, s2, s3) = sessions.decompose_ref();
     let Some(s1) = s1 else {
         return marshal_auth_size(auth_offset, buffer);
-- 
2.43.0


From 6020aa7e7d8232ef5e359d512217e61107669d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:31 +0000
Subject: [PATCH 07/12] fix: write the whole header of an error response

Only the response code was written; the tag and size of the ten bytes
reported to the caller were whatever the response buffer held before,
which is the request itself when a command is executed in place.
---
 crates/tpm2-impl/src/tpmctx.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/tpm2-impl/src/tpmctx.rs b/crates/tpm2-impl/src/tpmctx.rs
index 539915c..5de635b 100644
--- a/crates/tpm2-impl/src/tpmctx.rs
+++ b/crates/tpm2-impl/src/tpmctx.rs
@@ -48,11 +48,15 @@ impl<Deps: TpmContextDeps> TpmContext<Deps> {
     }
 
     fn fill_error(&mut self, response: &mut Deps::Response, error: TpmRcError) -> usize {
-        // TODO fill out more of the TPM header for an error
-        if response.write(6, &error.get().to_be_bytes()).is_err() {
+        const ERROR_RESPONSE_SIZE: usize = 10;
+        let mut header = [0u8; ERROR_RESPONSE_SIZE];
+        header[0..2].copy_from_slice(&0x8001_u16.to_be_bytes());
+        header[2..6].copy_from_slice(&(ERROR_RESPONSE_SIZE as u32).to_be_bytes());
+        header[6..10].copy_from_slice(&error.get().to_be_bytes());
+        if response.write(0, &header).is_err() {
             return 0;
         }
-        10
+        ERROR_RESPONSE_SIZE
     }
 
     fn execute_command(&mut self, buffers: impl TpmBuffers) -> Result<usize, TpmRcError> {
-- 
2.43.0


From 17bb6ccb4b85a831c326d6e67656358a63ba760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:31 +0000
Subject: [PATCH 08/12] fix: report a failing random bit generator as
 TPM_RC_FAILURE

A reseed or generate error of the platform's DRBG made the command
handler panic instead of answering the command.
---
 crates/tpm2-impl/src/handler/random.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/handler/random.rs b/crates/tpm2-impl/src/handler/random.rs
index 02428e6..5793f44 100644
--- a/crates/tpm2-impl/src/handler/random.rs
+++ b/crates/tpm2-impl/src/handler/random.rs
@@ -20,11 +20,6 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         self.crypto.drbg.fill_bytes(&[], buffer).map_err(Into::into)
     }
 
-    fn get_random_or_faiure_mode(&mut self, buffer: &mut [u8]) {
-        if self.try_get_random(buffer).is_err() {
-            todo!() // goto failure mode
-        }
-    }
     /// Handles the [TpmCc::GetRandom] (`0x17B`) command.
     pub fn get_random(
         &mut self,
@@ -34,11 +29,13 @@ impl<Deps: TpmContextDeps> CommandHandler<Deps> {
         let requested_bytes = request.read_be_u16().ok_or(TpmRcError::CommandSize)? as usize;
 
         let mut response = request.into_response();
+        let mut result = Ok(());
         response
             .write_callback(requested_bytes, |buffer| {
-                self.get_random_or_faiure_mode(buffer)
+                result = self.try_get_random(buffer)
             })
             .map_err(|_| TpmRcError::Memory)?;
-        Ok(())
+        // TODO: goto failure mode
+        result.map_err(|_| TpmRcError::Failure)
     }
 }
-- 
2.43.0


From 57c421e96fa4400afbf57c6708775612bf46ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:31 +0000
Subject: [PATCH 09/12] fix: out of range buffer offsets report an error
 instead of overflowing

Adding the length to an offset close to usize::MAX overflowed, which
panics in builds with overflow checks.
---
 crates/tpm2-impl/src/buffers/inout.rs   |  3 ++-
 crates/tpm2-impl/src/platform/buffer.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-impl/src/buffers/inout.rs b/crates/tpm2-impl/src/buffers/inout.rs
index 11e1123..b5815e4 100644
--- a/crates/tpm2-impl/src/buffers/inout.rs
+++ b/crates/tpm2-impl/src/buffers/inout.rs
@@ -33,7 +33,8 @@ impl<W: TpmWriteBuffer + ?Sized> TpmReadBuffer for InOutBuffer<'_, W> {
 
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
         // Limit the read view to only the request portion of the in-place buffer
-        if self.len < offset + out.len() {
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        if self.len < end {
             return Err(ReadOutOfBounds);
         }
         self.buffer.read_into(offset, out)
diff --git a/crates/tpm2-impl/src/platform/buffer.rs b/crates/tpm2-impl/src/platform/buffer.rs
index 5f57ed7..bc13f6d 100644
--- a/crates/tpm2-impl/src/platform/buffer.rs
+++ b/crates/tpm2-impl/src/platform/buffer.rs
@@ -62,9 +62,8 @@ impl TpmReadBuffer for [u8] {
         self.len()
     }
     fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
-        let read_from = self
-            .get(offset..offset + out.len())
-            .ok_or(ReadOutOfBounds)?;
+        let end = offset.checked_add(out.len()).ok_or(ReadOutOfBounds)?;
+        let read_from = self.get(offset..end).ok_or(ReadOutOfBounds)?;
         out.copy_from_slice(read_from);
         Ok(())
     }
@@ -72,9 +71,10 @@ impl TpmReadBuffer for [u8] {
 
 impl TpmWriteBuffer for [u8] {
     fn write(&mut self, write_offset: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
-        let write_to = self
-            .get_mut(write_offset..write_offset + data.len())
+        let end = write_offset
+            .checked_add(data.len())
             .ok_or(WriteOutOfBounds)?;
+        let write_to = self.get_mut(write_offset..end).ok_or(WriteOutOfBounds)?;
         write_to.copy_from_slice(data);
 
         Ok(())
@@ -85,7 +85,8 @@ impl TpmWriteBuffer for [u8] {
         size: usize,
         callback: impl FnOnce(&mut [u8]),
     ) -> Result<(), WriteOutOfBounds> {
-        let Some(buffer) = self.get_mut(write_offset..write_offset + size) else {
+        let end = write_offset.checked_add(size).ok_or(WriteOutOfBounds)?;
+        let Some(buffer) = self.get_mut(write_offset..end) else {
             return Err(WriteOutOfBounds);
         };
         callback(buffer);
-- 
2.43.0


From e9904bb457cc046c39b360ea34ce9ab710f7e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:05 +0000
Subject: [PATCH 10/12] verif: guarded access to private functions for the
 verification harnesses

---
 base/src/lib.rs                      | 32 ++++++++++++++++++++++++++++
 crates/tpm2/src/errors/tpm_rc/mod.rs | 11 ++++++++++
 2 files changed, 43 insertions(+)

diff --git a/base/src/lib.rs b/base/src/lib.rs
index 8dedd85..1bb3e41 100644
--- a/base/src/lib.rs
+++ b/base/src/lib.rs
@@ -1580,5 +1580,37 @@ impl_tpml! {TpmlEccCurve, ecc_curves, TpmEccCurve, TPM2_MAX_ECC_CURVES}
 impl_tpml! {TpmlTaggedPolicy, policies, TpmsTaggedPolicy, TPM2_MAX_TAGGED_POLICIES}
 impl_tpml! {TpmlDigest, digests, Tpm2bDigest, TPML_DIGEST_MAX_DIGESTS}
 
+/// Access to private functions for the verification harnesses.
+#[allow(unexpected_cfgs)]
+const _: () = {
+    #[cfg(verif_hooks)]
+    impl TpmaLocality {
+        pub fn verif_is_extended(&self) -> bool {
+            self.is_extended()
+        }
+    }
+    #[cfg(verif_hooks)]
+    impl TpmaCc {
+        pub fn verif_command_index(index: u16) -> TpmaCc {
+            Self::command_index(index)
+        }
+        pub fn verif_c_handles(count: u32) -> TpmaCc {
+            Self::c_handles(count)
+        }
+        pub fn verif_get_command_index(&self) -> u16 {
+            self.get_command_index()
+        }
+        pub fn verif_get_c_handles(&self) -> u32 {
+            self.get_c_handles()
+        }
+        pub fn verif_set_command_index(&mut self, index: u16) {
+            self.set_command_index(index)
+        }
+        pub fn verif_set_c_handles(&mut self, count: u32) {
+            self.set_c_handles(count)
+        }
+    }
+};
+
 #[cfg(test)]
 mod tests;
diff --git a/crates/tpm2/src/errors/tpm_rc/mod.rs b/crates/tpm2/src/errors/tpm_rc/mod.rs
index edfded8..c22d4b3 100644
--- a/crates/tpm2/src/errors/tpm_rc/mod.rs
+++ b/crates/tpm2/src/errors/tpm_rc/mod.rs
@@ -236,5 +236,16 @@ impl From<TpmRcError> for super::TssError {
     }
 }
 
+/// Access to private functions for the verification harnesses.
+#[allow(unexpected_cfgs)]
+const _: () = {
+    #[cfg(verif_hooks)]
+    impl TpmRcError {
+        pub const fn verif_new(val: u32) -> Self {
+            Self::new(val)
+        }
+    }
+};
+
 #[cfg(test)]
 mod tests;
-- 
2.43.0


From 209d162535495b20ff558b4fdf9a92a39e41ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:14 +0000
Subject: [PATCH 11/12] fix: refuse structures whose encoding exceeds a sized
 buffer's 16-bit size

Tpm2bStruct::from_struct truncated the length of the encoding to 16 bits, so
that a structure encoding to 65536 bytes or more was stored with a wrong size.
---
 marshalable-derive/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marshalable-derive/src/lib.rs b/marshalable-derive/src/lib.rs
index b0a98f3..fcbc020 100644
--- a/marshalable-derive/src/lib.rs
+++ b/marshalable-derive/src/lib.rs
@@ -94,7 +94,11 @@ fn derive_tpm2b_struct(
 
             fn from_struct(val: &Self::StructType) -> tpm2_rs_marshalable::Result<Self> {
                 let mut x = Self::default();
-                x.size = val.try_marshal(&mut x.#field_name)? as u16;
+                let size = val.try_marshal(&mut x.#field_name)?;
+                if size > u16::MAX as usize {
+                    return Err(tpm2_rs_marshalable::Error::ArrayLengthExceeded);
+                }
+                x.size = size as u16;
                 Ok(x)
             }
 
-- 
2.43.0


From 902b80368d3d092ad145a3bc5c09ed58ec0f8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:26 +0000
Subject: [PATCH 12/12] fix: do not leave the simulator running when it cannot
 be reached

TcpSimulator::new returned the error and dropped the Child, which neither
kills nor waits for the process.
---
 crates/tpm2-client/src/connection/tcp.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/tpm2-client/src/connection/tcp.rs b/crates/tpm2-client/src/connection/tcp.rs
index 7a7f9b7..84a9258 100644
--- a/crates/tpm2-client/src/connection/tcp.rs
+++ b/crates/tpm2-client/src/connection/tcp.rs
@@ -641,7 +641,7 @@ impl TcpSimulator {
             command.args(args);
         }
 
-        let child = command
+        let mut child = command
             // TODO: Capture stdout/stderr to display when requested.
             .stdout(Stdio::null())
             .stderr(Stdio::null())
@@ -657,16 +657,26 @@ impl TcpSimulator {
                 )
             })?;
 
+        match Self::connect(cwd.as_ref(), ip) {
+            Ok(conn) => Ok(TcpSimulator { child, conn }),
+            Err(err) => {
+                // Nothing else stops a simulator that cannot be reached.
+                let _ = child.kill();
+                let _ = child.wait();
+                Err(err)
+            }
+        }
+    }
+
+    /// Connects to the ports of the simulator that runs in the given directory.
+    fn connect(cwd: &Path, ip: &str) -> Result<TcpConnection> {
         // The TCG TPM simulator writes the ports it uses to two files:
         //   - TPM port: "command.port"
         //   - Platform port: "platform.port"
-        let tpm_port = Self::read_port_from_file_with_retries(&cwd.as_ref().join("command.port"))?;
-        let plat_port =
-            Self::read_port_from_file_with_retries(&cwd.as_ref().join("platform.port"))?;
-
-        let conn = TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))?;
+        let tpm_port = Self::read_port_from_file_with_retries(&cwd.join("command.port"))?;
+        let plat_port = Self::read_port_from_file_with_retries(&cwd.join("platform.port"))?;
 
-        Ok(TcpSimulator { child, conn })
+        TcpConnection::connect_with_retries(ip, Some(tpm_port), Some(plat_port))
     }
 
     /// Reads a port from a file with retires.
-- 
2.43.0

