From d82be6cc1d2bdb94302df42cfa33be6beb3fb39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 01/17] Add cfg(tchannel_verif) accessors for the verification
 harness

---
 src/lib.rs         |   5 ++
 src/verif_hooks.rs | 124 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 129 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index e6f07e8..4b4406c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -113,3 +113,8 @@ pub use self::channel::TResult;
 pub use self::subchannel::SubChannel;
 pub use config::Config;
 pub use config::ConfigBuilder;
+
+/// Access to crate internals for the verification harness. Compiled only with `--cfg tchannel_verif`.
+#[cfg(tchannel_verif)]
+#[doc(hidden)]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..5959776
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,124 @@
+//! Thin accessors to crate internals for the verification harness.
+//! This module exists only when the crate is built with `--cfg tchannel_verif`.
+pub use crate::connection::pool::*;
+pub use crate::connection::*;
+pub use crate::frames::headers::*;
+pub use crate::frames::payloads::*;
+pub use crate::frames::*;
+pub use crate::messages::args::*;
+
+use crate::channel::TResult;
+use crate::defragmentation::{RequestDefragmenter, ResponseDefragmenter};
+use crate::errors::{CodecError, ConnectionError, TChannelError};
+use crate::fragmentation::{RequestFragmenter, ResponseFragmenter};
+use crate::handler::{
+    MessageArgsHandler, RequestHandler, RequestHandlerAdapter, RequestHandlerAsync,
+    RequestHandlerAsyncAdapter,
+};
+use crate::messages::Message;
+use crate::SubChannel;
+use bytes::{Bytes, BytesMut};
+use std::collections::HashMap;
+
+/// Plain view of a call response frame payload.
+#[derive(Debug)]
+pub struct CallResponseView {
+    pub flags: Flags,
+    pub code: ResponseCode,
+    pub tracing: Tracing,
+    pub headers: HashMap<String, String>,
+    pub args: CallArgs,
+}
+
+pub fn encode_call_response(view: CallResponseView, dst: &mut BytesMut) -> CodecResult<()> {
+    let fields = CallResponseFields::new(view.code, view.tracing, view.headers);
+    CallResponse::new(view.flags, fields, view.args).encode(dst)
+}
+
+pub fn decode_call_response(src: &mut Bytes) -> CodecResult<CallResponseView> {
+    let response = CallResponse::decode(src)?;
+    Ok(CallResponseView {
+        flags: response.flags,
+        code: response.fields.code,
+        tracing: response.fields.tracing,
+        headers: response.fields.headers,
+        args: response.args,
+    })
+}
+
+pub fn fragment_request(service: &str, args: MessageArgs) -> TResult<TFrameStream> {
+    RequestFragmenter::new(service.to_string(), args).create_frames()
+}
+
+pub fn fragment_response(
+    service: &str,
+    code: ResponseCode,
+    args: MessageArgs,
+) -> TResult<TFrameStream> {
+    ResponseFragmenter::new(service, code, args).create_frames()
+}
+
+pub async fn read_request(input: FrameInput) -> TResult<(CallRequestFields, MessageArgs)> {
+    RequestDefragmenter::new(input).read_request().await
+}
+
+pub async fn read_request_msg<MSG: Message>(input: FrameInput) -> TResult<MSG> {
+    RequestDefragmenter::new(input).read_request_msg().await
+}
+
+pub async fn read_response(
+    input: FrameInput,
+) -> TResult<(ResponseCode, HashMap<String, String>, MessageArgs)> {
+    let (fields, args) = ResponseDefragmenter::new(input).read_response().await?;
+    Ok((fields.code, fields.headers, args))
+}
+
+pub async fn read_response_msg<MSG: Message>(input: FrameInput) -> TResult<(ResponseCode, MSG)> {
+    ResponseDefragmenter::new(input).read_response_msg().await
+}
+
+pub async fn handle_with<H>(handler: H, args: MessageArgs) -> MessageArgsResponse
+where
+    H: RequestHandler + 'static,
+{
+    let mut adapter = RequestHandlerAdapter::new(handler);
+    MessageArgsHandler::handle(&mut adapter, args).await
+}
+
+pub async fn handle_async_with<H>(handler: H, args: MessageArgs) -> MessageArgsResponse
+where
+    H: RequestHandlerAsync + 'static,
+{
+    let mut adapter = RequestHandlerAsyncAdapter::new(handler);
+    MessageArgsHandler::handle(&mut adapter, args).await
+}
+
+pub async fn subchannel_handle(subchannel: &SubChannel, args: MessageArgs) -> MessageArgsResponse {
+    subchannel.handle(args).await
+}
+
+pub async fn subchannel_send_over<REQ: Message, RES: Message>(
+    subchannel: &SubChannel,
+    request: REQ,
+    frames_in: FrameInput,
+    frames_out: &FrameOutput,
+) -> TResult<(ResponseCode, RES)> {
+    subchannel
+        .send_internal(request, frames_in, frames_out)
+        .await
+}
+
+pub fn error_with_id(
+    id: u32,
+    err: TChannelError,
+    tracing: Tracing,
+) -> Result<(ErrorMsg, u32), TChannelError> {
+    match TChannelError::from((id, err, tracing)) {
+        TChannelError::ConnectionError(ConnectionError::MessageErrorId(msg, id)) => Ok((msg, id)),
+        other => Err(other),
+    }
+}
+
+pub fn codec_error(msg: &str) -> CodecError {
+    CodecError::Error(msg.to_string())
+}
-- 
2.43.0


From b30b527a1111c468e02a2cb8c08c7bd0ccbc6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 02/17] fix: empty leading chunk of a continuation frame ends
 the previous arg instead of adding a new one

---
 src/defragmentation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 30ece5e..a7ff7a8 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -229,7 +229,8 @@ impl ArgsDefragmenter {
                     self.args.push(first_arg);
                 }
             },
-            // next arg (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
+            // according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame
+            None if !self.args.is_empty() => {}
             None => self.args.push(BytesMut::new()),
         }
     }
-- 
2.43.0


From dac5619d4d4687071fd8c84186ec791c8759787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 03/17] fix: end an arg in the next frame when no room is left
 for the length of the next arg

---
 src/fragmentation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 05b64c6..a27f248 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -218,16 +218,15 @@ impl ArgsFragmenter {
         payload_limit: i32,
     ) -> (FragmentationStatus, Option<Bytes>) {
         let src_remaining = arg.remaining() as i32;
-        if src_remaining == 0 {
-            (FragmentationStatus::Complete, Some(Bytes::new()))
-        } else if payload_limit < 0 {
+        if payload_limit < 0 {
             (FragmentationStatus::Incomplete, None)
         } else if src_remaining > payload_limit {
             let fragment = arg.split_to(payload_limit as usize);
             (FragmentationStatus::Incomplete, Some(fragment))
         } else {
             let arg_bytes = arg.split_to(arg.len());
-            if src_remaining == payload_limit {
+            // no space left for the length of the next arg
+            if payload_limit - src_remaining < ARG_LEN_LEN as i32 {
                 (FragmentationStatus::CompleteAtTheEnd, Some(arg_bytes))
             } else {
                 (FragmentationStatus::Complete, Some(arg_bytes))
-- 
2.43.0


From eacc7a144b55ee0a872373482d65dfd3d62418f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 04/17] fix: fragmentation of args longer than i32::MAX bytes

---
 src/fragmentation.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index a27f248..c11ac35 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -148,7 +148,7 @@ impl Fragmenter {
         payload_limit: usize,
         checksum_type: ChecksumType,
     ) -> VecDeque<Option<Bytes>> {
-        let remaining_limit = payload_limit as i32 - checksum_len(checksum_type) as i32;
+        let remaining_limit = payload_limit as i64 - checksum_len(checksum_type) as i64;
         self.args_fragmenter.next_frame_args_vec(remaining_limit)
     }
 
@@ -188,16 +188,16 @@ impl ArgsFragmenter {
         self.args.is_empty()
     }
 
-    pub fn next_frame_args_vec(&mut self, mut payload_limit: i32) -> VecDeque<Option<Bytes>> {
+    pub fn next_frame_args_vec(&mut self, mut payload_limit: i64) -> VecDeque<Option<Bytes>> {
         let mut frame_args = VecDeque::with_capacity(3);
         while let Some(mut arg) = self.args.pop_front() {
-            payload_limit -= ARG_LEN_LEN as i32;
+            payload_limit -= ARG_LEN_LEN as i64;
             let (status, frame_arg_opt) = Self::next_arg_fragment(&mut arg, payload_limit);
             if let Some(frame_arg) = frame_arg_opt {
                 match frame_arg.len() {
                     0 => frame_args.push_back(None),
                     len => {
-                        payload_limit -= len as i32;
+                        payload_limit -= len as i64;
                         frame_args.push_back(Some(frame_arg));
                     }
                 }
@@ -215,9 +215,9 @@ impl ArgsFragmenter {
 
     fn next_arg_fragment(
         arg: &mut Bytes,
-        payload_limit: i32,
+        payload_limit: i64,
     ) -> (FragmentationStatus, Option<Bytes>) {
-        let src_remaining = arg.remaining() as i32;
+        let src_remaining = arg.remaining() as i64;
         if payload_limit < 0 {
             (FragmentationStatus::Incomplete, None)
         } else if src_remaining > payload_limit {
@@ -226,7 +226,7 @@ impl ArgsFragmenter {
         } else {
             let arg_bytes = arg.split_to(arg.len());
             // no space left for the length of the next arg
-            if payload_limit - src_remaining < ARG_LEN_LEN as i32 {
+            if payload_limit - src_remaining < ARG_LEN_LEN as i64 {
                 (FragmentationStatus::CompleteAtTheEnd, Some(arg_bytes))
             } else {
                 (FragmentationStatus::Complete, Some(arg_bytes))
-- 
2.43.0


From 5093574a193dab2fe67661844c2a3423403b076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 05/17] fix: return an error instead of panicking on truncated
 frame payloads

---
 src/frames/payloads.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/frames/payloads.rs b/src/frames/payloads.rs
index 82c683c..21e0a2e 100644
--- a/src/frames/payloads.rs
+++ b/src/frames/payloads.rs
@@ -5,6 +5,7 @@ use bytes::{Buf, BufMut, Bytes, BytesMut};
 use num_traits::FromPrimitive;
 use std::collections::{HashMap, VecDeque};
 use std::fmt::Write;
+use std::mem::size_of;
 
 /// Supported TChannel protocol version
 pub const PROTOCOL_VERSION: u16 = 2;
@@ -101,6 +102,7 @@ impl Codec for Tracing {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 25)?;
         Ok(Tracing::new(
             src.get_u64(),
             src.get_u64(),
@@ -132,6 +134,7 @@ impl Codec for Init {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 2)?;
         Ok(Init::new(src.get_u16(), decode_headers(src)?))
     }
 }
@@ -190,6 +193,7 @@ impl Codec for CallWithFieldsEncoded {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 1)?;
         Ok(CallWithFieldsEncoded::new(
             decode_bitflag(src.get_u8(), Flags::from_bits)?,
             CallRequestFields::decode(src)?.encode_bytes()?,
@@ -235,6 +239,7 @@ impl Codec for CallRequestFields {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 4)?;
         Ok(CallRequestFields::new(
             src.get_u32(),
             Tracing::decode(src)?,
@@ -277,6 +282,7 @@ impl Codec for CallRequest {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 1)?;
         Ok(CallRequest::new(
             decode_bitflag(src.get_u8(), Flags::from_bits)?,
             CallRequestFields::decode(src)?,
@@ -321,6 +327,7 @@ impl Codec for CallResponseFields {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 1)?;
         Ok(CallResponseFields::new(
             decode_bitflag(src.get_u8(), ResponseCode::from_u8)?,
             Tracing::decode(src)?,
@@ -362,6 +369,7 @@ impl Codec for CallResponse {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 1)?;
         Ok(CallResponse::new(
             decode_bitflag(src.get_u8(), Flags::from_bits)?,
             CallResponseFields::decode(src)?,
@@ -403,6 +411,7 @@ impl Codec for CallContinue {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 1)?;
         Ok(CallContinue::new(
             decode_bitflag(src.get_u8(), Flags::from_bits)?,
             CallArgs::decode(src)?,
@@ -431,6 +440,7 @@ impl Codec for Cancel {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 4)?;
         Ok(Cancel::new(
             src.get_u32(),
             Tracing::decode(src)?,
@@ -457,6 +467,7 @@ impl Codec for Claim {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 4)?;
         Ok(Claim::new(src.get_u32(), Tracing::decode(src)?))
     }
 }
@@ -481,6 +492,7 @@ impl Codec for ErrorMsg {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        check_remaining(src, 1)?;
         Ok(ErrorMsg::new(
             decode_bitflag(src.get_u8(), ErrorCode::from_u8)?,
             Tracing::decode(src)?,
@@ -547,13 +559,24 @@ fn encode_checksum(
 }
 
 fn decode_checksum(src: &mut Bytes) -> CodecResult<(ChecksumType, Option<u32>)> {
+    check_remaining(src, 1)?;
     let checksum_type = decode_bitflag(src.get_u8(), ChecksumType::from_u8)?;
     match checksum_type {
         ChecksumType::None => Ok((ChecksumType::None, None)),
-        checksum => Ok((checksum, Some(src.get_u32()))),
+        checksum => {
+            check_remaining(src, 4)?;
+            Ok((checksum, Some(src.get_u32())))
+        }
     }
 }
 
+fn check_remaining(src: &Bytes, len: usize) -> CodecResult<()> {
+    if src.remaining() < len {
+        return Err(CodecError::Error("Frame too short".to_owned()));
+    }
+    Ok(())
+}
+
 fn decode_bitflag<T, F: Fn(u8) -> Option<T>>(byte: u8, decoder: F) -> CodecResult<T> {
     decoder(byte).ok_or_else(|| CodecError::Error(format!("Unknown flag: {}", byte)))
 }
@@ -637,8 +660,10 @@ fn decode_string_field<T: Into<usize>>(
     src: &mut Bytes,
     get_len: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<String> {
-    let len = get_len(src);
-    let bytes = src.copy_to_bytes(len.into());
+    check_remaining(src, size_of::<T>())?;
+    let len = get_len(src).into();
+    check_remaining(src, len)?;
+    let bytes = src.copy_to_bytes(len);
     Ok(String::from_utf8(bytes.chunk().to_vec())?)
 }
 
@@ -660,6 +685,7 @@ fn decode_len<T: TryInto<usize>>(
     src: &mut Bytes,
     decode_len_fn: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<usize> {
+    check_remaining(src, size_of::<T>())?;
     decode_len_fn(src)
         .try_into()
         .map_err(|_| CodecError::Error("Failed to cast len to usize.".to_string()))
-- 
2.43.0


From ec9052b120c7574552582e07f5dc31142b8da249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 06/17] fix: reject frames with unsupported checksum type
 instead of panicking

---
 src/defragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index a7ff7a8..896b66e 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -199,7 +199,10 @@ async fn read_continuation(
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-        _ => todo!(),
+        other => Err(CodecError::Error(format!(
+            "Unsupported checksum type {:?}",
+            other
+        ))),
     }
 }
 
-- 
2.43.0


From bd878544ed9845ed2015b0c87d0b9954fe592df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 07/17] fix: refuse to encode frames exceeding maximal frame
 size

---
 src/frames/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frames/mod.rs b/src/frames/mod.rs
index 3d358bb..5ca087f 100644
--- a/src/frames/mod.rs
+++ b/src/frames/mod.rs
@@ -83,7 +83,8 @@ impl Encoder<TFrameId> for TFrameIdCodec {
 
     fn encode(&mut self, item: TFrameId, dst: &mut BytesMut) -> Result<(), Self::Error> {
         let frame = item.frame();
-        let len = frame.size() as u16 + FRAME_HEADER_LENGTH;
+        let len = u16::try_from(frame.size() + FRAME_HEADER_LENGTH as usize)
+            .map_err(|_| CodecError::Error(format!("Frame too long: {}", frame.size())))?;
         trace!("Encoding TFrame (id {}, len {})", item.id(), frame.size());
         dst.reserve(len as usize);
         dst.put_u16(len);
-- 
2.43.0


From 781bc31a4c0ffb16fc11812910447d4641926cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 08/17] fix: send error message response with error response
 code

---
 src/handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22787f0..2983a9d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,7 +76,7 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => Ok((ResponseCode::Ok, message.try_into()?)),
+            HandlerError::MessageError(message) => Ok((ResponseCode::Error, message.try_into()?)),
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From c037bdb01cca39bff283dcb6142bb2ec5c6a8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 09/17] fix: keep pending sender when registration with
 duplicated id is refused

---
 src/connection/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 52efddb..47931fc 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -75,10 +75,11 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
-        if channels.insert(id, sender).is_some() {
+        if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
         }
+        channels.insert(id, sender);
         Ok(())
     }
 
-- 
2.43.0


From 43064408d2f0ee3f189a10afd30634d176192690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 10/17] fix: fail when frames end before the last fragment of a
 message

---
 src/defragmentation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 896b66e..5d5019f 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -174,7 +174,7 @@ async fn read_continuation(
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
                 if !continuation.flags().contains(Flags::MORE_FRAGMENTS_FOLLOW) {
-                    break;
+                    return Ok(());
                 }
             }
             Type::Error => {
@@ -193,7 +193,9 @@ async fn read_continuation(
             }
         };
     }
-    Ok(())
+    Err(TChannelError::Error(
+        "Frames ended before the last fragment".to_string(),
+    ))
 }
 
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
-- 
2.43.0


From bb2e7c291cd899aaf9b2b191260cb3aa7d3abba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 11/17] fix: answer a failed request with an error frame
 instead of closing the connection

---
 src/server.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 6bf76ca..fa499e4 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,7 +9,6 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
-use futures::TryFutureExt;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -158,15 +157,20 @@ struct FrameHandler {
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        self.handle_input(id, frame_input)
-            .and_then(|frames| self.send_frames(frames))
-            .await
+        let frames = match self.handle_input(id, frame_input).await {
+            Ok(frames) => frames,
+            Err(err) => {
+                debug!("Failed to handle message (id {}): {}", id, err);
+                vec![self.to_error_frame(ErrorCode::UnexpectedError, err.to_string(), id)?]
+            }
+        };
+        self.send_frames(frames).await
     }
 
     async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let (request_fields, message_args) =
-            RequestDefragmenter::new(frame_input).read_request().await?;
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
+        let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
-- 
2.43.0


From 0ea2ecb0b46cfd6a065171e319856314e30de0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 12/17] fix: truncate error frame message to the frame size

---
 src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index fa499e4..e4c1283 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -7,7 +7,9 @@ use crate::fragmentation::ResponseFragmenter;
 use crate::frames::headers::InitHeaderKey;
 use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_VERSION};
 use crate::frames::payloads::{Init, Tracing};
-use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
+use crate::frames::{
+    TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH,
+};
 use crate::SubChannel;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
@@ -20,6 +22,9 @@ use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
+/// Maximal frame payload without error code (1 byte), tracing (25 bytes) and message length (2 bytes).
+const MAX_ERROR_MSG_LENGTH: usize = (FRAME_MAX_LENGTH - FRAME_HEADER_LENGTH) as usize - 28;
+
 #[derive(Debug)]
 pub struct Server {
     subchannels: SharedSubChannels,
@@ -210,9 +215,15 @@ impl FrameHandler {
         Ok(())
     }
 
-    fn to_error_frame(&self, code: ErrorCode, msg: String, id: u32) -> CodecResult<TFrameId> {
+    fn to_error_frame(&self, code: ErrorCode, mut msg: String, id: u32) -> CodecResult<TFrameId> {
         //TODO add meaningful tracing
         let tracing = Tracing::default();
+        // message has to fit into a single frame
+        let mut len = msg.len().min(MAX_ERROR_MSG_LENGTH);
+        while !msg.is_char_boundary(len) {
+            len -= 1;
+        }
+        msg.truncate(len);
         let err = ErrorMsg::new(code, tracing, msg);
         let frame = TFrame::new(Type::Error, err.encode_bytes()?);
         Ok(TFrameId::new(id, frame))
-- 
2.43.0


From 629fd06dc92319c3ea0c9aade6b2a3c0df7092c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 13/17] fix: end pending calls when their connection is lost

---
 src/connection/mod.rs  | 25 +++++++++++++++++++++++--
 src/connection/pool.rs |  6 +++---
 src/server.rs          |  4 +---
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 47931fc..5a97e52 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -7,7 +7,7 @@ use futures::{future, StreamExt};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::Arc;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
@@ -50,6 +50,8 @@ impl FrameOutput {
 pub struct FramesDispatcher {
     #[new(default)]
     senders: RwLock<HashMap<u32, Sender<TFrameId>>>,
+    #[new(default)]
+    closed: AtomicBool,
     buffer_size: usize,
 }
 
@@ -75,6 +77,9 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
+        if self.is_closed() {
+            return Err(ConnectionError::Error("Connection closed".to_owned()));
+        }
         if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -83,6 +88,17 @@ impl FramesDispatcher {
         Ok(())
     }
 
+    /// Drops pending senders, which ends awaiting of their receivers. New senders will be refused.
+    pub async fn close(&self) {
+        let mut channels = self.senders.write().await;
+        self.closed.store(true, Ordering::SeqCst);
+        channels.clear();
+    }
+
+    pub fn is_closed(&self) -> bool {
+        self.closed.load(Ordering::SeqCst)
+    }
+
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
@@ -157,6 +173,10 @@ impl Connection {
         Ok((receiver, frame_output))
     }
 
+    pub fn is_closed(&self) -> bool {
+        self.pending_ids.is_closed()
+    }
+
     fn next_message_id(&self) -> u32 {
         self.next_message_id.fetch_add(1, Ordering::Relaxed)
     }
@@ -232,7 +252,8 @@ impl FrameReceiver {
             .filter_map(Self::print_if_err_and_skip)
             .map(|frame| self.frame_senders.dispatch_following(frame))
             .for_each(Self::print_if_err)
-            .await
+            .await;
+        self.frame_senders.close().await;
     }
 
     fn print_if_err_and_skip(
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7cdf9a0..0f24df0 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -102,9 +102,9 @@ impl bb8::ManageConnection for ConnectionManager {
         ping(conn).await
     }
 
-    fn has_broken(&self, _conn: &mut Self::Connection) -> bool {
-        debug!("Has broken? (not implemented)");
-        false
+    fn has_broken(&self, conn: &mut Self::Connection) -> bool {
+        debug!("Has broken?");
+        conn.is_closed()
     }
 }
 
diff --git a/src/server.rs b/src/server.rs
index e4c1283..2b1e8e0 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -7,9 +7,7 @@ use crate::fragmentation::ResponseFragmenter;
 use crate::frames::headers::InitHeaderKey;
 use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_VERSION};
 use crate::frames::payloads::{Init, Tracing};
-use crate::frames::{
-    TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH,
-};
+use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type, FRAME_HEADER_LENGTH, FRAME_MAX_LENGTH};
 use crate::SubChannel;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
-- 
2.43.0


From 98e091656792643926c29d9e98d1440cafc015da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 14/17] Add cfg(tchannel_verif) constructor of the connection
 manager

---
 src/connection/pool.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 0f24df0..46d78c1 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -84,6 +84,16 @@ pub struct ConnectionManager {
     frame_buffer_size: usize,
 }
 
+#[cfg(tchannel_verif)]
+impl ConnectionManager {
+    pub fn verif_new(addr: SocketAddr, frame_buffer_size: usize) -> Self {
+        ConnectionManager {
+            addr,
+            frame_buffer_size,
+        }
+    }
+}
+
 #[async_trait]
 impl bb8::ManageConnection for ConnectionManager {
     //TODO create in out connection types?
-- 
2.43.0


From 7d7a84707168de6bbe8652be687024b3075e3a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 15/17] fix: do not close the connection when remaining frames
 of a failed request arrive

---
 src/connection/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 5a97e52..2878df2 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -63,7 +63,11 @@ impl FramesDispatcher {
         let senders = self.senders.read().await;
         if let Some(sender) = senders.get(frame.id()) {
             debug!("Dispatching frame (id {}) to found sender.", frame.id());
-            return Ok(sender.send(frame).map_ok(|_| None).await?);
+            if let Err(err) = sender.send(frame).await {
+                // receiver already failed to read the message, remaining frames of it are of no use
+                debug!("Skipping frame (id {}).", err.0.id());
+            }
+            return Ok(None);
         }
         std::mem::drop(senders);
         //TODO it will return error on check if it got concurrently inserted
-- 
2.43.0


From e81d09da05280d68284734435cd453c732f11a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 16/17] fix: keep reading frames while the limit of handled
 requests is reached

---
 src/server.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 2b1e8e0..e9dbd55 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -18,11 +18,15 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
+use tokio::sync::Semaphore;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 /// Maximal frame payload without error code (1 byte), tracing (25 bytes) and message length (2 bytes).
 const MAX_ERROR_MSG_LENGTH: usize = (FRAME_MAX_LENGTH - FRAME_HEADER_LENGTH) as usize - 28;
 
+/// Maximal number of permits of [`Semaphore`].
+const MAX_REQUEST_PERMITS: usize = usize::MAX >> 3;
+
 #[derive(Debug)]
 pub struct Server {
     subchannels: SharedSubChannels,
@@ -74,12 +78,14 @@ impl Server {
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
             sender,
+            request_permits(self.server_tasks),
         );
 
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame))
-            .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
+            // Incomplete requests must not stop reading of frames. Handling of complete ones is limited by the handler.
+            .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
@@ -150,11 +156,20 @@ impl Server {
     }
 }
 
+/// Limits number of concurrently handled requests. There is no limit for 0 `server_tasks`.
+fn request_permits(server_tasks: usize) -> Semaphore {
+    match server_tasks {
+        0 => Semaphore::new(MAX_REQUEST_PERMITS),
+        tasks => Semaphore::new(tasks.min(MAX_REQUEST_PERMITS)),
+    }
+}
+
 #[derive(Debug, new)]
 struct FrameHandler {
     subchannels: SharedSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
+    permits: Semaphore,
 }
 
 impl FrameHandler {
@@ -174,6 +189,7 @@ impl FrameHandler {
         let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
         let (request_fields, message_args) = request?;
+        let _permit = self.permits.acquire().await;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
-- 
2.43.0


From f0e91f213588e8ae5291b24d40a0affaf44a7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 17/17] fix: a single exchange could block its connection when
 answered by more than one frame

With its receiver still alive and its channel full, dispatching of a further frame
holds the lock that closing of the exchange waits for. Nothing more is then read
from the connection, so its other calls do not end even when it is lost.
---
 src/connection/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 2878df2..a5e6ff9 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -162,6 +162,8 @@ impl Connection {
         let (mut frame_input, frame_output) = self.new_frames_io().await?;
         frame_output.send(frame).await?;
         let response = frame_input.recv().await;
+        // unread frames must not block dispatching, which would block closing of the output
+        std::mem::drop(frame_input);
         frame_output.close().await;
         response.ok_or_else(|| ConnectionError::Error("Received no response".to_owned()))
     }
-- 
2.43.0

