@@ use serde_json::Map => crate::shim::JsonMap
@@ use serde_json::Value => crate::shim::JsonValue
@@ use serde_json::ser::to_string => crate::shim::json_to_string
@@ use serde_json::to_string => crate::shim::json_to_string
@@ use serde_json::from_slice => crate::shim::json_from_slice
@@ module shim
    pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [ Option::<T>::map_or_else ] (o: Option<T>, d: D, f: F) -> (r: U)
        requires o is None ==> call_requires(d, ()), o is Some ==> call_requires(f, (o->0,))
        ensures o is None ==> call_ensures(d, (), r), o is Some ==> call_ensures(f, (o->0,), r);
    #[verifier::external_body] pub fn vp_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
    #[verifier::external_body] pub fn vp_vec_from(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
    // a byte string made of given bytes
    pub uninterp spec fn bytes_of(s: Seq<u8>) -> Bytes;
    pub broadcast axiom fn bytes_of_view(s: Seq<u8>)
        ensures #[trigger] bytes_of(s)@ == s;
    impl vstd::std_specs::convert::FromSpecImpl<String> for Bytes { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Self { bytes_of(encode_utf8(v@)) } }
    impl From<String> for Bytes { #[verifier::external_body] fn from(s: String) -> Bytes { unimplemented!() } }
    // ---------- serde_json: the text it writes for a map, and the map it reads from text
    #[verifier::external_body] pub struct JObj { _x: u8 }
    #[verifier::external_body] pub struct JsonValue { _x: u8 }
    #[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct JsonMap<K, V> { _k: K, _v: V }
    impl<K, V> View for JsonMap<K, V> { type V = JObj; uninterp spec fn view(&self) -> JObj; }
    pub uninterp spec fn json_text(o: JObj) -> Seq<char>;
    pub uninterp spec fn json_of(b: Seq<u8>) -> Option<JObj>;
    #[verifier::external_body] pub fn json_to_string(v: &JsonMap<String, JsonValue>) -> (r: Result<String, SerdeError>) ensures r is Ok, r->Ok_0@ == json_text(v@) { unimplemented!() }
    #[verifier::external_body] pub fn json_from_slice(b: &[u8]) -> (r: Result<JsonMap<String, JsonValue>, SerdeError>) ensures match r { Ok(m) => json_of(b@) == Some(m@), Err(_) => json_of(b@) is None } { unimplemented!() }
@@ item messages::args::MessageWithArgs
@@ item messages::Message
@@ item messages::raw::RawMessage
@@ item messages::json::JsonMessage
@@ module messages::args
    /// `TryFrom<MessageArgs>`
    pub trait TryFromArgs: Sized {
        type Error;
        /// arguments and scheme read as this message
        spec fn from_args(scheme: ArgSchemeValue, args: crate::spec::Args, m: Self) -> bool;
        /// arguments and scheme that are no message of this type
        spec fn bad_args(scheme: ArgSchemeValue, args: crate::spec::Args) -> bool;
        fn try_from(args: MessageArgs) -> (r: Result<Self, Self::Error>)
            ensures match r { Ok(m) => Self::from_args(args.arg_scheme, bytes_list(args.args@), m), Err(_) => Self::bad_args(args.arg_scheme, bytes_list(args.args@)) };
    }
    /// `TryInto<MessageArgs>`
    pub trait TryIntoArgs: Sized {
        type Error;
        /// scheme and arguments this message becomes
        spec fn to_args(self) -> (ArgSchemeValue, crate::spec::Args);
        fn try_into(self) -> (r: Result<MessageArgs, Self::Error>)
            ensures match r { Ok(a) => (a.arg_scheme, bytes_list(a.args@)) == self.to_args() && !(a.arg_scheme is Custom) && 1 <= a.args@.len() <= 3, Err(_) => false };
    }
@@ impl messages::args::MessageWithArgs
    spec fn mscheme() -> ArgSchemeValue;
@@ fn messages::args::MessageWithArgs::args_scheme
@ spec
    ensures r == Self::mscheme(),
@@ impl messages::raw::<RawMessage as MessageWithArgs>
    open spec fn mscheme() -> ArgSchemeValue { ArgSchemeValue::Raw }
@@ fn messages::raw::<RawMessage as MessageWithArgs>::args_scheme :: props=C09,C10
@@ impl messages::json::<JsonMessage as MessageWithArgs>
    open spec fn mscheme() -> ArgSchemeValue { ArgSchemeValue::Json }
@@ fn messages::json::<JsonMessage as MessageWithArgs>::args_scheme :: props=C09,C10
@@ module messages::raw
    broadcast use {bytes_of_view};
    impl Message for RawMessage {}
@@ module messages::json
    broadcast use {bytes_of_view};
    impl Message for JsonMessage {}
@@ module spec
    use crate::messages::raw::RawMessage;
    use crate::messages::json::JsonMessage;
    use crate::messages::*;
    /// the i-th argument, empty when there is none
    pub open spec fn arg_at(a: Args, i: int) -> Seq<u8> { if 0 <= i < a.len() { a[i] } else { seq![] } }
    pub open spec fn raw_is(m: RawMessage, endpoint: Seq<char>, header: Seq<char>, body: Seq<u8>) -> bool { m.endpoint@ == endpoint && m.header@ == header && m.body@ == body }
    pub open spec fn json_is(m: JsonMessage, method: Seq<char>, headers: JObj, body: JObj) -> bool { m.method_name@ == method && m.headers@ == headers && m.body@ == body }
@@ fn messages::raw::RawMessage::new :: props=C10 auto
@@ fn messages::raw::RawMessage::endpoint :: props=C10 auto
@@ fn messages::raw::RawMessage::header :: props=C10 auto
@@ fn messages::raw::RawMessage::body :: props=C10 auto
@@ fn messages::json::JsonMessage::new :: props=C10 auto
@@ fn messages::json::JsonMessage::method_name :: props=C10 auto
@@ fn messages::json::JsonMessage::headers :: props=C10 auto
@@ fn messages::json::JsonMessage::body :: props=C10 auto
@@ fn messages::raw::bytes_to_string :: props=C10
@ spec
    ensures ({ let b = match arg { Some(x) => x@, None => seq![] }; match r { Ok(s) => valid_utf8(b) && encode_utf8(s@) == b, Err(_) => !valid_utf8(b) } }),
@ closure 0
    || -> (r: Result<String, FromUtf8Error>) ensures r is Ok, r->Ok_0@ == Seq::<char>::empty()
@ closure 1
    |b: Bytes| -> (r: Result<String, FromUtf8Error>) ensures match r { Ok(s) => valid_utf8(b@) && encode_utf8(s@) == b@, Err(_) => !valid_utf8(b@) }
@ hint start
    proof { lemma_empty_utf8(); }
@@ fn messages::json::bytes_to_string :: props=C10
@ spec
    ensures ({ let b = match arg { Some(x) => x@, None => seq![] }; match r { Ok(s) => valid_utf8(b) && encode_utf8(s@) == b, Err(_) => !valid_utf8(b) } }),
@ closure 0
    || -> (r: Result<String, FromUtf8Error>) ensures r is Ok, r->Ok_0@ == Seq::<char>::empty()
@ closure 1
    |b: Bytes| -> (r: Result<String, FromUtf8Error>) ensures match r { Ok(s) => valid_utf8(b@) && encode_utf8(s@) == b@, Err(_) => !valid_utf8(b@) }
@ hint start
    proof { lemma_empty_utf8(); }
@@ fn messages::json::bytes_to_json :: props=C10
@ spec
    ensures ({ let b = match arg { Some(x) => x@, None => seq![] }; match r { Ok(m) => json_of(b) == Some(m@), Err(_) => json_of(b) is None } }),
@@ module spec
    pub proof fn lemma_empty_utf8()
        ensures valid_utf8(seq![]), encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
    { let e = Seq::<char>::empty(); is_ascii_chars_encode_utf8(e); assert(encode_utf8(e) =~= seq![]); encode_utf8_valid_utf8(e); }
@@ impl messages::raw::<RawMessage as TryFrom<MessageArgs>>
    open spec fn from_args(scheme: ArgSchemeValue, args: Args, m: Self) -> bool {
        scheme == ArgSchemeValue::Raw && valid_utf8(arg_at(args, 0)) && valid_utf8(arg_at(args, 1)) && encode_utf8(m.endpoint@) == arg_at(args, 0) && encode_utf8(m.header@) == arg_at(args, 1) && m.body@ == arg_at(args, 2)
    }
    open spec fn bad_args(scheme: ArgSchemeValue, args: Args) -> bool { scheme != ArgSchemeValue::Raw || !valid_utf8(arg_at(args, 0)) || !valid_utf8(arg_at(args, 1)) }
@@ fn messages::raw::<RawMessage as TryFrom<MessageArgs>>::try_from :: props=C09,C10,C11
@@ impl messages::raw::<RawMessage as TryInto<MessageArgs>>
    open spec fn to_args(self) -> (ArgSchemeValue, Args) { (ArgSchemeValue::Raw, seq![encode_utf8(self.endpoint@), encode_utf8(self.header@), self.body@]) }
@@ fn messages::raw::<RawMessage as TryInto<MessageArgs>>::try_into :: props=C09,C10,C11
@@ impl messages::json::<JsonMessage as TryFrom<MessageArgs>>
    open spec fn from_args(scheme: ArgSchemeValue, args: Args, m: Self) -> bool {
        scheme == ArgSchemeValue::Json && valid_utf8(arg_at(args, 0)) && encode_utf8(m.method_name@) == arg_at(args, 0) && json_of(arg_at(args, 1)) == Some(m.headers@) && json_of(arg_at(args, 2)) == Some(m.body@)
    }
    open spec fn bad_args(scheme: ArgSchemeValue, args: Args) -> bool { scheme != ArgSchemeValue::Json || !valid_utf8(arg_at(args, 0)) || json_of(arg_at(args, 1)) is None || json_of(arg_at(args, 2)) is None }
@@ fn messages::json::<JsonMessage as TryFrom<MessageArgs>>::try_from :: props=C09,C10,C11
@@ impl messages::json::<JsonMessage as TryInto<MessageArgs>>
    open spec fn to_args(self) -> (ArgSchemeValue, Args) { (ArgSchemeValue::Json, seq![encode_utf8(self.method_name@), encode_utf8(json_text(self.headers@)), encode_utf8(json_text(self.body@))]) }
@@ fn messages::json::<JsonMessage as TryInto<MessageArgs>>::try_into :: props=C09,C10,C11
@@ module spec
    pub proof fn lemma_utf8_injective(a: Seq<char>, b: Seq<char>)
        requires encode_utf8(a) == encode_utf8(b)
        ensures a == b
    { encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
    /// C10: a raw message read back from its own arguments is the same message
    pub proof fn theorem_c10_raw(m: RawMessage, n: RawMessage)
        ensures
            m.to_args() == (ArgSchemeValue::Raw, seq![encode_utf8(m.endpoint@), encode_utf8(m.header@), m.body@]),
            !RawMessage::bad_args(m.to_args().0, m.to_args().1),
            RawMessage::from_args(m.to_args().0, m.to_args().1, n) ==> n.endpoint@ == m.endpoint@ && n.header@ == m.header@ && n.body@ == m.body@,
    {
        encode_utf8_valid_utf8(m.endpoint@); encode_utf8_valid_utf8(m.header@);
        if RawMessage::from_args(m.to_args().0, m.to_args().1, n) { lemma_utf8_injective(n.endpoint@, m.endpoint@); lemma_utf8_injective(n.header@, m.header@); }
    }
    /// C10: the same for JSON messages whose objects the JSON library reads back from its own text
    pub proof fn theorem_c10_json(m: JsonMessage, n: JsonMessage)
        requires json_of(encode_utf8(json_text(m.headers@))) == Some(m.headers@), json_of(encode_utf8(json_text(m.body@))) == Some(m.body@)
        ensures
            m.to_args() == (ArgSchemeValue::Json, seq![encode_utf8(m.method_name@), encode_utf8(json_text(m.headers@)), encode_utf8(json_text(m.body@))]),
            !JsonMessage::bad_args(m.to_args().0, m.to_args().1),
            JsonMessage::from_args(m.to_args().0, m.to_args().1, n) ==> n.method_name@ == m.method_name@ && n.headers@ == m.headers@ && n.body@ == m.body@,
    {
        encode_utf8_valid_utf8(m.method_name@);
        if JsonMessage::from_args(m.to_args().0, m.to_args().1, n) { lemma_utf8_injective(n.method_name@, m.method_name@); }
    }
    /// C10: wrong scheme, text that is not UTF-8 and what is not a JSON object are refused; missing trailing raw arguments are empty
    pub proof fn theorem_c10_refused(s: ArgSchemeValue, a: Args, r: RawMessage, j: JsonMessage)
        ensures
            RawMessage::bad_args(s, a) ==> !RawMessage::from_args(s, a, r), JsonMessage::bad_args(s, a) ==> !JsonMessage::from_args(s, a, j),
            !same_scheme(s, RawMessage::mscheme()) ==> RawMessage::bad_args(s, a), !same_scheme(s, JsonMessage::mscheme()) ==> JsonMessage::bad_args(s, a),
            a.len() < 3 && RawMessage::from_args(s, a, r) ==> r.body@ == Seq::<u8>::empty(),
            a.len() < 2 && RawMessage::from_args(s, a, r) ==> r.header@ == Seq::<char>::empty(),
    {
        lemma_empty_utf8();
        if a.len() < 2 && RawMessage::from_args(s, a, r) { lemma_utf8_injective(r.header@, Seq::empty()); }
    }
