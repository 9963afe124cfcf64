@@ item errors::CodecError
@@ item errors::IoError
@@ module errors
    impl vstd::std_specs::convert::FromSpecImpl<String> for CodecError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Self { CodecError::Error(v) } }
    impl vstd::std_specs::convert::FromSpecImpl<FromUtf8Error> for CodecError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: FromUtf8Error) -> Self { CodecError::StringDecodingError(v) } }
    impl vstd::std_specs::convert::FromSpecImpl<FmtError> for CodecError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: FmtError) -> Self { CodecError::FormattingError(v) } }
    impl vstd::std_specs::convert::FromSpecImpl<ParseError> for CodecError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ParseError) -> Self { CodecError::ParseError(v) } }
@@ fn errors::<CodecError as From<String>>::from :: props=C02,C03,C05
@@ fn errors::<CodecError as From<FromUtf8Error>>::from :: props=C02,C03,C05
@@ fn errors::<CodecError as From<fmt::Error>>::from :: props=C02,C03,C05
@@ fn errors::<CodecError as From<ParseError>>::from :: props=C02,C03,C05
