@# external items and the stand-ins of the same name in module shim
@@ use bytes::Bytes => crate::shim::Bytes
@@ use bytes::BytesMut => crate::shim::BytesMut
@@ use std::io::Cursor => crate::shim::Cursor
@@ use std::collections::HashMap => crate::shim::HashMap
@@ use std::collections::VecDeque => crate::shim::VecDeque
@@ use num_traits::FromPrimitive => crate::shim::FromPrimitive
@@ use _num_traits::FromPrimitive => crate::shim::FromPrimitive
@@ use std::string::FromUtf8Error => crate::shim::FromUtf8Error
@@ use core::fmt::Error => crate::shim::FmtError
@@ use strum::ParseError => crate::shim::ParseError
@@ use std::mem::size_of => crate::shim::size_of
@@ use std::io::Error => crate::shim::StdIoError
@@ use serde_json::Error => crate::shim::SerdeError
@@ use bb8::RunError => crate::shim::RunError
@@ use tokio::sync::mpsc::error::SendError => crate::shim::SendError
@@ use tokio_util::codec::Encoder => crate::shim::Encoder
@@ use tokio_util::codec::Decoder => crate::shim::Decoder
