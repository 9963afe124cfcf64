@@ item errors::TChannelError
@@ item errors::ConnectionError
@@ item channel::TResult
@@ item connection::ConnectionResult
@@ module errors
    impl vstd::std_specs::convert::FromSpecImpl<String> for TChannelError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Self { TChannelError::Error(v) } }
    impl vstd::std_specs::convert::FromSpecImpl<CodecError> for TChannelError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: CodecError) -> Self { TChannelError::CodecError(v) } }
    impl vstd::std_specs::convert::FromSpecImpl<ConnectionError> for TChannelError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ConnectionError) -> Self { TChannelError::ConnectionError(v) } }
    impl vstd::std_specs::convert::FromSpecImpl<String> for ConnectionError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Self { ConnectionError::Error(v) } }
    impl vstd::std_specs::convert::FromSpecImpl<CodecError> for ConnectionError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: CodecError) -> Self { ConnectionError::FrameError(v) } }
    impl vstd::std_specs::convert::FromSpecImpl<StdIoError> for ConnectionError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: StdIoError) -> Self { ConnectionError::IoError(IoError(v)) } }
@@ fn errors::<TChannelError as From<String>>::from :: props=C08,C10,C11
@@ fn errors::<TChannelError as From<CodecError>>::from :: props=C07,C08,C09,C10,C11
@@ fn errors::<TChannelError as From<ConnectionError>>::from :: props=C08,C11
@@ fn errors::<ConnectionError as From<String>>::from :: props=C12,C14
@@ fn errors::<ConnectionError as From<CodecError>>::from :: props=C14
@@ fn errors::<ConnectionError as From<io::Error>>::from :: props=C14
@@ module shim
    impl SerdeError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
@@ module errors
    impl vstd::std_specs::convert::FromSpecImpl<SerdeError> for CodecError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: SerdeError) -> Self; }
@@ fn errors::<CodecError as From<serde_json::Error>>::from :: props=C10
