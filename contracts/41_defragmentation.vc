@@ use tokio::sync::mpsc::Receiver => crate::shim::Receiver
@@ use std::str::FromStr => crate::shim::FromStr
@@ use core::str::FromStr => crate::shim::FromStr
@@ module shim
    // ---------- strum: parsing of names
    pub trait FromStr: Sized { type Err; spec fn of_name(s: Seq<char>) -> Option<Self>; fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures match Self::of_name(s@) { Some(v) => r == Ok::<Self, Self::Err>(v), None => r is Err }; }
    // ---------- iteration over a deque by mutable reference
    impl<'a, T> VpIntoIter for &'a mut VecDeque<T> {
        type It = VpSeqIter<&'a mut T>;
        #[verifier::external_body] fn vp_into_iter(self) -> (r: VpSeqIter<&'a mut T>) ensures r@.len() == old(self)@.len(), forall|i: int| 0 <= i < old(self)@.len() ==> *(#[trigger] r@[i]) == old(self)@[i] { unimplemented!() }
    }
    /// `v.iter_mut().map(f).collect()`: f is applied to a reference to each element
    #[verifier::external_body] pub fn vp_iter_mut_map_collect<T, U, F: FnMut(&mut T) -> U>(v: &mut Vec<T>, f: F) -> (r: Vec<U>)
        requires forall|m: &mut T| #[trigger] call_requires(f, (m,))
        ensures r@.len() == old(v)@.len(), forall|i: int| 0 <= i < r@.len() ==> exists|m: &mut T| *m == old(v)@[i] && #[trigger] call_ensures(f, (m,), #[trigger] r@[i]) { unimplemented!() }
    impl BytesMut {
        #[verifier::external_body] pub fn from<S: ByteView + ?Sized>(s: &S) -> (r: BytesMut) ensures r@ == s.bv() { unimplemented!() }
    }
    // ---------- tokio mpsc: a receiver is the sequence of messages it will yield before its end
    pub trait VpMsg: Sized { spec fn msg_ok(&self) -> bool; spec fn sent(chan: int, m: Self) -> crate::spec::Ev; }
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Receiver<T> { _x: T }
    impl<T> View for Receiver<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    impl<T: VpMsg> Receiver<T> {
        #[verifier::external_body] pub async fn recv(&mut self) -> (r: Option<T>)
            ensures match r { Some(m) => old(self)@.len() > 0 && m == old(self)@[0] && final(self)@ == old(self)@.skip(1) && m.msg_ok(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    }
@@ item connection::FrameInput
@@ item defragmentation::ResponseDefragmenter
@@ item defragmentation::RequestDefragmenter
@@ item defragmentation::Defragmenter
@@ item defragmentation::ArgSchemeChecker
@@ item defragmentation::ArgsDefragmenter
@@ module spec
    use crate::defragmentation::*;
    /// a frame of a connection: its payload came out of the frame decoder or goes into the frame encoder
    impl VpMsg for TFrameId { open spec fn msg_ok(&self) -> bool { self.frame.payload@.len() <= 65535 } open spec fn sent(chan: int, m: Self) -> Ev { Ev::Sent { chan, frame: m } } }
    pub open spec fn scheme_of(n: Seq<char>) -> Option<ArgSchemeValue> {
        if n == "raw"@ { Some(ArgSchemeValue::Raw) } else if n == "json"@ { Some(ArgSchemeValue::Json) } else if n == "http"@ { Some(ArgSchemeValue::Http) }
        else if n == "thrift"@ { Some(ArgSchemeValue::Thrift) } else if n == "sthrift"@ { Some(ArgSchemeValue::StreamingThrift) } else { None }
    }
    /// the argument scheme declared by the transport headers
    pub open spec fn scheme_decl(h: Map<Seq<char>, Seq<char>>) -> Option<ArgSchemeValue> { if h.contains_key("as"@) { scheme_of(h["as"@]) } else { None } }
    pub open spec fn same_scheme(a: ArgSchemeValue, b: ArgSchemeValue) -> bool {
        match (a, b) { (ArgSchemeValue::Custom(x), ArgSchemeValue::Custom(y)) => x@ == y@, _ => a == b }
    }
    pub open spec fn more(f: Flags) -> bool { f.bits & 1 == 1 }
    /// a continuation frame that can be used
    pub open spec fn cont_frame(f: TFrameId) -> Option<ContV> {
        if f.frame.frame_type == Type::CallRequestContinue || f.frame.frame_type == Type::CallResponseContinue {
            match cont_parse(f.frame.payload@) { Some((c, _)) => if c.args.ct == ChecksumType::None { Some(c) } else { None }, None => None }
        } else { None }
    }
    /// arguments and number of frames when `fs` starts with the remaining fragments of a message whose arguments so far are `acc`
    pub open spec fn cont_fold(acc: Args, fs: Seq<TFrameId>) -> Option<(Args, nat)>
        decreases fs.len()
    {
        if fs.len() == 0 { None } else { match cont_frame(fs[0]) {
            None => None,
            Some(c) => {
                let a = add_frame(acc, c.args.args);
                if !more(c.flags) { Some((a, 1)) } else { match cont_fold(a, fs.skip(1)) { None => None, Some((r, n)) => Some((r, n + 1)) } }
            },
        } }
    }
    pub open spec fn rest_args(flags: Flags, acc: Args, fs: Seq<TFrameId>) -> Option<Args> {
        if !more(flags) { Some(acc) } else { match cont_fold(acc, fs) { None => None, Some((a, _)) => Some(a) } }
    }
    /// the first frame of a message, decoded
    pub open spec fn first_frame<FRAME: Codec>(ty: Type, fs: Seq<TFrameId>, f: FRAME) -> bool {
        fs.len() > 0 && fs[0].frame.frame_type == ty && FRAME::parse(fs[0].frame.payload@) is Some && f.reads((FRAME::parse(fs[0].frame.payload@)->0).0)
    }
    #[verifier::prophetic]
    pub open spec fn is_decoder<FRAME: Codec, F: Fn(&mut Bytes) -> CodecResult<FRAME>>(d: F) -> bool {
        &&& forall|b: &mut Bytes| b@.len() <= 65535 ==> #[trigger] call_requires(d, (b,))
        &&& forall|b: &mut Bytes, r: CodecResult<FRAME>| #[trigger] call_ensures(d, (b,), r) ==> match FRAME::parse(b@) { Some((p, _)) => r is Ok && r->Ok_0.reads(p), None => r is Err }
    }
@@ module frames::headers
    impl PartialEq for ArgSchemeValue { #[verifier::external_body] fn eq(&self, o: &ArgSchemeValue) -> (r: bool) ensures r == same_scheme(*self, *o) { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ArgSchemeValue { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ArgSchemeValue) -> bool { same_scheme(*self, *o) } }
@@ impl frames::headers::<ArgSchemeValue as FromStr>
    open spec fn of_name(s: Seq<char>) -> Option<Self> { scheme_of(s) }
@@ fn frames::headers::<ArgSchemeValue as FromStr>::from_str :: props=C08,C09
@@ impl frames::payloads::Call
    spec fn c_fields(self) -> FIELDS;
    spec fn c_flags(self) -> Flags;
    spec fn c_args(self) -> CallArgs;
@@ fn frames::payloads::Call::fields
@ spec
    ensures r == self.c_fields(),
@@ fn frames::payloads::Call::flags
@ spec
    ensures r == self.c_flags(),
@@ fn frames::payloads::Call::args
@ spec
    ensures *r == old(self).c_args(), final(self).c_args() == *final(r), final(self).c_fields() == old(self).c_fields(), final(self).c_flags() == old(self).c_flags(),
@@ impl frames::payloads::CallFields
    spec fn cf_headers(self) -> Map<Seq<char>, Seq<char>>;
@@ fn frames::payloads::CallFields::headers
@ spec
    ensures strmap(r@) == self.cf_headers(),
@@ impl frames::payloads::<CallRequestFields as CallFields>
    open spec fn cf_headers(self) -> Map<Seq<char>, Seq<char>> { strmap(self.headers@) }
@@ fn frames::payloads::<CallRequestFields as CallFields>::headers :: props=C08,C09
@@ impl frames::payloads::<CallResponseFields as CallFields>
    open spec fn cf_headers(self) -> Map<Seq<char>, Seq<char>> { strmap(self.headers@) }
@@ fn frames::payloads::<CallResponseFields as CallFields>::headers :: props=C08,C09
@@ impl frames::payloads::<CallRequest as Call>
    open spec fn c_fields(self) -> CallRequestFields { self.fields }
    open spec fn c_flags(self) -> Flags { self.flags }
    open spec fn c_args(self) -> CallArgs { self.args }
@@ fn frames::payloads::<CallRequest as Call>::fields :: props=C08
@@ fn frames::payloads::<CallRequest as Call>::flags :: props=C08
@@ fn frames::payloads::<CallRequest as Call>::args :: props=C08
@@ impl frames::payloads::<CallResponse as Call>
    open spec fn c_fields(self) -> CallResponseFields { self.fields }
    open spec fn c_flags(self) -> Flags { self.flags }
    open spec fn c_args(self) -> CallArgs { self.args }
@@ fn frames::payloads::<CallResponse as Call>::fields :: props=C08
@@ fn frames::payloads::<CallResponse as Call>::flags :: props=C08
@@ fn frames::payloads::<CallResponse as Call>::args :: props=C08
@@ fn frames::TFrame::payload_mut :: props=C06,C08,C14
@ spec
    ensures *r == old(self).payload, *final(self) == (TFrame { payload: *final(r), ..*old(self) }),
@@ fn frames::payloads::CallArgs::checksum_type :: props=C06,C08 auto
@@ fn defragmentation::verify_args :: props=C06,C08
@ spec
    ensures match r {
        Ok(m) => old(call_args).checksum_type == ChecksumType::None && *m == old(call_args).args,
        Err(_) => old(call_args).checksum_type != ChecksumType::None,
    },
@@ fn defragmentation::ArgsDefragmenter::add :: props=C06,C08,C11
@ spec
    ensures bufs(final(self).args@) == add_frame(bufs(old(self).args@), argsv(old(frame_args)@)),
@@ fn defragmentation::ArgsDefragmenter::add_first_arg :: props=C06,C08,C11
@ spec
    ensures bufs(final(self).args@) == add_frame(bufs(old(self).args@), seq![argv(frame_arg)]),
@@ fn defragmentation::ArgsDefragmenter::add_remaining_args :: props=C06,C08,C11
@ spec
    ensures bufs(final(self).args@) == bufs(old(self).args@) + argsv(old(frame_args)@),
@ hint start
    let ghost vp_o = frame_args@; let ghost vp_b = bufs(self.args@); let ghost mut vp_i: int = 0;
    proof { assert(vp_b + argsv(vp_o.take(0)) =~= vp_b); }
@ hint preloop 0
    let ghost vp_all = vp_it0@;
@ loop 0
    invariant 0 <= vp_i <= vp_all.len(), vp_all.len() == vp_o.len(), vp_it0@ == vp_all.skip(vp_i), forall|i: int| 0 <= i < vp_all.len() ==> *(#[trigger] vp_all[i]) == vp_o[i],
        bufs(self.args@) == vp_b + argsv(vp_o.take(vp_i)),
    ensures vp_i == vp_all.len(),
    decreases vp_all.len() - vp_i
@ hint loopstart 0
    let ghost vp_s = self.args@;
@ hint loopend 0
    proof {
        assert(self.args@.drop_last() =~= vp_s && bufs(self.args@) =~= bufs(vp_s).push(argv(vp_o[vp_i])));
        assert(argsv(vp_o.take(vp_i + 1)) =~= argsv(vp_o.take(vp_i)).push(argv(vp_o[vp_i])));
        assert(bufs(self.args@) =~= vp_b + argsv(vp_o.take(vp_i + 1)));
        vp_i = vp_i + 1;
    }
@ hint postloop 0
    proof { assert(vp_o.take(vp_i) =~= vp_o); }
@@ fn defragmentation::ArgsDefragmenter::args :: props=C06,C08,C11
@ spec
    ensures bytes_list(r@) == bufs(old(self).args@),
@ closure 0
    |arg_mut: &mut BytesMut| -> (b: Bytes) ensures b@ == old(arg_mut)@.take(old(arg_mut)@.len() as int)
@ hint tail
    proof { assert forall|i: int| 0 <= i < vp_tail@.len() implies bytes_list(vp_tail@)[i] == bufs(old(self).args@)[i] by { let b = vp_tail@[i]; let o = old(self).args@[i]@; assert(o.take(o.len() as int) =~= o); } assert(bytes_list(vp_tail@) =~= bufs(old(self).args@)); }
@@ module spec
    pub open spec fn bufs(a: Seq<BytesMut>) -> Args { a.map_values(|b: BytesMut| b@) }
@@ fn defragmentation::get_args_scheme :: props=C08,C09,C17
@ spec
    ensures match scheme_decl(fields.cf_headers()) { Some(s) => r is Ok && r->Ok_0 == s, None => r is Err },
@@ fn defragmentation::ArgSchemeChecker::new :: props=C08,C09 auto
@@ fn defragmentation::ArgSchemeChecker::check :: props=C08,C09,C17
@ spec
    ensures match scheme_decl(fields.cf_headers()) { Some(s) => if same_scheme(s, self.arg_scheme) { r is Ok && r->Ok_0 == s } else { r is Err }, None => r is Err },
@@ fn defragmentation::read_continuation :: props=C06,C08,C11
@ spec
    ensures match cont_fold(bufs(old(args_defragmenter).args@), old(frame_input)@) {
        Some((a, n)) => r is Ok && bufs(final(args_defragmenter).args@) == a && final(frame_input)@ == old(frame_input)@.skip(n as int) && 1 <= n <= old(frame_input)@.len(),
        None => r is Err,
    },
@ hint start
    let ghost vp_a0 = bufs(args_defragmenter.args@); let ghost vp_f0 = frame_input@; let ghost mut vp_k: nat = 0;
@ loop 0
    invariant vp_a0 == bufs(old(args_defragmenter).args@), vp_f0 == old(frame_input)@, vp_k <= vp_f0.len(), frame_input@ == vp_f0.skip(vp_k as int),
        cont_fold(vp_a0, vp_f0) == (match cont_fold(bufs(args_defragmenter.args@), frame_input@) { None => None::<(Args, nat)>, Some((a, n)) => Some((a, n + vp_k)) }),
    ensures cont_fold(vp_a0, vp_f0) is None,
    decreases frame_input@.len()
@ hint loopstart 0
    let ghost vp_a1 = bufs(args_defragmenter.args@); let ghost vp_f1 = frame_input@;
@ hint loopend 0
    proof { vp_k = vp_k + 1; }
@@ fn defragmentation::Defragmenter::new :: props=C08 auto
@@ fn defragmentation::Defragmenter::read_beginning :: props=C08
@ spec
    requires is_decoder::<FRAME, _>(decode)
    ensures match r {
        Ok((fields, flags)) => exists|f: FRAME| #[trigger] first_frame(frame_type, old(self).frame_input@, f) && f.c_args().checksum_type == ChecksumType::None
            && fields == f.c_fields() && flags == f.c_flags() && bufs(final(args_defragmenter).args@) == add_frame(bufs(old(args_defragmenter).args@), argsv(f.c_args().args@)) && final(self).frame_input@ == old(self).frame_input@.skip(1),
        Err(_) => (exists|f: FRAME| #[trigger] first_frame(frame_type, old(self).frame_input@, f) && f.c_args().checksum_type != ChecksumType::None)
            || old(self).frame_input@.len() == 0 || old(self).frame_input@[0].frame.frame_type != frame_type || FRAME::parse(old(self).frame_input@[0].frame.payload@) is None,
    },
@ hint after decode 0
    let ghost vp_fr = frame;
    proof { assert(first_frame(frame_type, old(self).frame_input@, vp_fr)); }
@@ fn defragmentation::<ArgsDefragmenter as Default>::default :: props=C06,C08
@ spec
    ensures r.args@.len() == 0,
@@ module spec
    #[verifier::prophetic]
    pub open spec fn read_ok<FIELDS: CallFields, FRAME: Codec + Call<FIELDS>, F: Fn(&FIELDS) -> CodecResult<ArgSchemeValue>>(ty: Type, fs: Seq<TFrameId>, check: F, f: FRAME, fields: FIELDS, scheme: ArgSchemeValue, args: Args) -> bool {
        &&& first_frame(ty, fs, f) && f.c_args().checksum_type == ChecksumType::None && fields == f.c_fields()
        &&& call_ensures(check, (&fields,), Ok::<ArgSchemeValue, crate::errors::CodecError>(scheme))
        &&& rest_args(f.c_flags(), add_frame(seq![], argsv(f.c_args().args@)), fs.skip(1)) == Some(args)
    }
    #[verifier::prophetic]
    pub open spec fn read_bad<FIELDS: CallFields, FRAME: Codec + Call<FIELDS>, F: Fn(&FIELDS) -> CodecResult<ArgSchemeValue>>(ty: Type, fs: Seq<TFrameId>, check: F, f: FRAME) -> bool {
        &&& first_frame(ty, fs, f)
        &&& f.c_args().checksum_type != ChecksumType::None
            || (exists|fields: FIELDS, e: CodecResult<ArgSchemeValue>| fields == f.c_fields() && e is Err && #[trigger] call_ensures(check, (&fields,), e))
            || rest_args(f.c_flags(), add_frame(seq![], argsv(f.c_args().args@)), fs.skip(1)) is None
    }
@@ fn defragmentation::Defragmenter::read_and_check :: props=C06,C08,C09,C11
@ spec
    requires is_decoder::<FRAME, _>(decode), forall|x: &FIELDS| #[trigger] call_requires(check_fields, (x,))
    ensures match r {
        Ok((fields, args)) => exists|f: FRAME| #[trigger] first_frame(frame_type, self.frame_input@, f) && read_ok(frame_type, self.frame_input@, check_fields, f, fields, args.arg_scheme, bytes_list(args.args@)),
        Err(_) => self.frame_input@.len() == 0 || self.frame_input@[0].frame.frame_type != frame_type || FRAME::parse(self.frame_input@[0].frame.payload@) is None
            || exists|f: FRAME| #[trigger] first_frame(frame_type, self.frame_input@, f) && read_bad(frame_type, self.frame_input@, check_fields, f),
    },
@ hint start
    proof { assert(bufs(Seq::<BytesMut>::empty()) =~= seq![]); }
@@ module spec
    /// what a call decoded from these frames is: fields, scheme and arguments
    pub open spec fn req_read(fs: Seq<TFrameId>) -> Option<(ReqFieldsV, ArgSchemeValue, Args)> {
        if fs.len() == 0 || fs[0].frame.frame_type != Type::CallRequest { None } else { match req_parse(fs[0].frame.payload@) {
            None => None,
            Some((p, _)) => if p.args.ct != ChecksumType::None { None } else { match (scheme_decl(p.fields.headers), rest_args(p.flags, add_frame(seq![], p.args.args), fs.skip(1))) {
                (Some(s), Some(a)) => Some((p.fields, s, a)),
                _ => None,
            } },
        } }
    }
    pub open spec fn res_read(fs: Seq<TFrameId>) -> Option<(ResFieldsV, ArgSchemeValue, Args)> {
        if fs.len() == 0 || fs[0].frame.frame_type != Type::CallResponse { None } else { match res_parse(fs[0].frame.payload@) {
            None => None,
            Some((p, _)) => if p.args.ct != ChecksumType::None { None } else { match (scheme_decl(p.fields.headers), rest_args(p.flags, add_frame(seq![], p.args.args), fs.skip(1))) {
                (Some(s), Some(a)) => Some((p.fields, s, a)),
                _ => None,
            } },
        } }
    }
@@ fn defragmentation::Defragmenter::read :: props=C06,C08,C09,C11
@ spec
    requires is_decoder::<FRAME, _>(decode)
    ensures match r {
        Ok((fields, args)) => exists|f: FRAME| #[trigger] first_frame(frame_type, self.frame_input@, f) && f.c_args().checksum_type == ChecksumType::None && fields == f.c_fields()
            && scheme_decl(fields.cf_headers()) == Some(args.arg_scheme)
            && rest_args(f.c_flags(), add_frame(seq![], argsv(f.c_args().args@)), self.frame_input@.skip(1)) == Some(bytes_list(args.args@)),
        Err(_) => self.frame_input@.len() == 0 || self.frame_input@[0].frame.frame_type != frame_type || FRAME::parse(self.frame_input@[0].frame.payload@) is None
            || exists|f: FRAME| #[trigger] first_frame(frame_type, self.frame_input@, f) && (f.c_args().checksum_type != ChecksumType::None || scheme_decl(f.c_fields().cf_headers()) is None
                || rest_args(f.c_flags(), add_frame(seq![], argsv(f.c_args().args@)), self.frame_input@.skip(1)) is None),
    },
@@ fn defragmentation::RequestDefragmenter::new :: props=C08
@ spec
    ensures r.defragmenter.frame_input == frame_input,
@@ fn defragmentation::ResponseDefragmenter::new :: props=C08
@ spec
    ensures r.defragmenter.frame_input == frame_input,
@@ fn defragmentation::RequestDefragmenter::read_request :: props=C06,C08,C09,C11
@ spec
    ensures match r {
        Ok((fields, args)) => req_read(self.defragmenter.frame_input@) == Some((reqfv(fields), args.arg_scheme, bytes_list(args.args@))),
        Err(_) => req_read(self.defragmenter.frame_input@) is None,
    },
@@ fn defragmentation::ResponseDefragmenter::read_response :: props=C06,C08,C09,C11
@ spec
    ensures match r {
        Ok((fields, args)) => res_read(self.defragmenter.frame_input@) == Some((resfv(fields), args.arg_scheme, bytes_list(args.args@))),
        Err(_) => res_read(self.defragmenter.frame_input@) is None,
    },
