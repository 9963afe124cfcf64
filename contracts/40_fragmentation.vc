@@ use futures::stream::iter => crate::shim::stream_iter
@@ module shim
    // ---------- streams of ready items
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VpStream<T> { _x: T }
    impl<T> View for VpStream<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    #[verifier::external_body] pub fn stream_iter<T>(v: Vec<T>) -> (r: VpStream<T>) ensures r@ == v@ { unimplemented!() }
    pub fn vp_pin<T>(t: T) -> (r: T) ensures r == t { t }
    #[verifier::external_body] pub fn vp_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn vp_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
    impl<T> VecDeque<T> {
        #[verifier::external_body] pub fn from(v: Vec<T>) -> (r: VecDeque<T>) ensures r@ == v@ { unimplemented!() }
    }
@@ module frames
    pub type TFrameStream = crate::shim::VpStream<TFrame>;
@@ item frames::headers::TransportHeaderKey +eq
@@ item frames::headers::ArgSchemeValue
@@ item messages::args::MessageArgs
@@ item fragmentation::ResponseFragmenter
@@ item fragmentation::RequestFragmenter
@@ item fragmentation::Fragmenter
@@ item fragmentation::ArgsFragmenter
@@ item fragmentation::FragmentationStatus #[derive(Clone, Copy)] +eq
@@ module spec
    use crate::fragmentation::*;
    use crate::frames::headers::*;
    use crate::messages::args::*;
    // ---------- names of headers and schemes
    pub open spec fn key_name(k: TransportHeaderKey) -> Seq<char> {
        match k {
            TransportHeaderKey::ArgScheme => "as"@, TransportHeaderKey::ClaimAtStart => "cas"@, TransportHeaderKey::ClaimAtFinish => "caf"@, TransportHeaderKey::CallerName => "cn"@,
            TransportHeaderKey::RetryFlags => "re"@, TransportHeaderKey::SpeculativeExecution => "se"@, TransportHeaderKey::FailureDomain => "fd"@, TransportHeaderKey::ShardKey => "sk"@,
        }
    }
    pub open spec fn scheme_name(s: ArgSchemeValue) -> Seq<char> {
        match s { ArgSchemeValue::Raw => "raw"@, ArgSchemeValue::Json => "json"@, ArgSchemeValue::Http => "http"@, ArgSchemeValue::Thrift => "thrift"@, ArgSchemeValue::StreamingThrift => "sthrift"@, ArgSchemeValue::Custom(s) => s@ }
    }
    // ---------- the protocol's rule for chunks: the first chunk of a frame continues the last argument, each further one starts the next
    pub type Args = Seq<Seq<u8>>;
    pub open spec fn add_frame(acc: Args, chunks: Args) -> Args {
        if acc.len() == 0 { chunks } else if chunks.len() == 0 { acc } else { acc.drop_last() + (seq![acc.last() + chunks[0]] + chunks.skip(1)) }
    }
    /// the arguments carried by a sequence of frames
    pub open spec fn fold_frames(chunks: Seq<Args>) -> Args
        decreases chunks.len()
    { if chunks.len() == 0 { seq![] } else { add_frame(fold_frames(chunks.drop_last()), chunks.last()) } }
    pub proof fn lemma_add_frame(a: Args, c: Args, rest: Args)
        requires c.len() > 0
        ensures add_frame(add_frame(a, c), rest) == add_frame(a, add_frame(c, rest))
    {
        if a.len() > 0 && rest.len() > 0 {
            let l = add_frame(add_frame(a, c), rest); let r = add_frame(a, add_frame(c, rest));
            if c.len() == 1 {
                assert(add_frame(a, c).last() =~= a.last() + c[0]);
                assert(add_frame(c, rest)[0] =~= c[0] + rest[0]);
                assert(a.last() + (c[0] + rest[0]) =~= a.last() + c[0] + rest[0]);
                assert(add_frame(a, c).drop_last() =~= a.drop_last());
                assert(add_frame(c, rest).skip(1) =~= rest.skip(1));
                assert(l =~= r);
            } else {
                assert(add_frame(a, c).last() == c.last());
                assert(add_frame(a, c).drop_last() =~= a.drop_last() + (seq![a.last() + c[0]] + c.drop_last().skip(1)));
                assert(add_frame(c, rest)[0] == c[0]);
                assert(add_frame(c, rest).skip(1) =~= c.drop_last().skip(1) + (seq![c.last() + rest[0]] + rest.skip(1)));
                assert(l =~= r);
            }
        }
    }
    pub open spec fn bytes_list(a: Seq<Bytes>) -> Args { a.map_values(|b: Bytes| b@) }
    pub open spec fn total(a: Args) -> nat
        decreases a.len()
    { if a.len() == 0 { 0 } else { 1 + a[0].len() + total(a.skip(1)) } }
    pub proof fn lemma_total(x: Seq<u8>, a: Args)
        ensures total(seq![x] + a) == 1 + x.len() + total(a)
    { assert((seq![x] + a).skip(1) =~= a); }
    /// one frame takes `out` from the arguments `old` and leaves `fin`
    pub open spec fn frame_step(old: Args, lim: int, out: Args, fin: Args) -> bool {
        &&& old == add_frame(out, fin)
        &&& args_size(out) <= lim
        &&& out.len() <= old.len() && fin.len() <= old.len()
        &&& old.len() > 0 ==> out.len() > 0 && total(fin) < total(old)
    }
    pub open spec fn none_args(c: Args) -> ArgsV { ArgsV { ct: ChecksumType::None, cs: None, args: c } }
    pub open spec fn more_flag(more: bool) -> Flags { Flags { bits: if more { 1u8 } else { 0u8 } } }
    /// payload of the i-th frame of a fragmented message
    pub open spec fn frag_payload(fields: Seq<u8>, chunks: Seq<Args>, more: bool, i: int) -> Seq<u8> {
        let fl = more_flag(i + 1 < chunks.len() || more);
        if i == 0 { enc_wire(EncV { flags: fl, fields, args: none_args(chunks[i]) }) } else { cont_wire(ContV { flags: fl, args: none_args(chunks[i]) }) }
    }
    pub open spec fn frag_frame(f: TFrame, fields: Seq<u8>, ty: Type, cty: Type, chunks: Seq<Args>, more: bool, i: int) -> bool {
        f.frame_type == (if i == 0 { ty } else { cty }) && f.payload@ == frag_payload(fields, chunks, more, i) && f.payload@.len() <= 65518 && 1 <= chunks[i].len() <= 3
    }
    /// a well formed stream of fragments
    pub open spec fn frag_stream(fs: Seq<TFrame>, fields: Seq<u8>, ty: Type, cty: Type, chunks: Seq<Args>, more: bool) -> bool {
        fs.len() == chunks.len() && fs.len() >= 1 && forall|i: int| 0 <= i < fs.len() ==> frag_frame(#[trigger] fs[i], fields, ty, cty, chunks, more, i)
    }
    /// frames that carry the message with these fields and arguments
    pub open spec fn frames_of(fs: Seq<TFrame>, fields: Seq<u8>, ty: Type, cty: Type, args: Args) -> bool {
        exists|chunks: Seq<Args>| #[trigger] frag_stream(fs, fields, ty, cty, chunks, false) && fold_frames(chunks) == args
    }
    /// transport headers of every call
    pub open spec fn call_headers(scheme: ArgSchemeValue, service: Seq<char>) -> Map<Seq<char>, Seq<char>> { Map::empty().insert("as"@, scheme_name(scheme)).insert("cn"@, service) }
    pub proof fn lemma_cargs_size(c: Args)
        ensures cargs_wire(none_args(c)).len() == 1 + args_size(c)
    { reveal(cargs_wire); reveal(sum_wire); lemma_args_len(c); }
@@ fn frames::headers::<TransportHeaderKey as Display>::fmt :: props=C07,C09 display
@ spec
    ensures r@ == key_name(*self),
@@ fn frames::headers::<ArgSchemeValue as Display>::fmt :: props=C07,C09 display
@ spec
    requires !(*self is Custom)
    ensures r@ == scheme_name(*self),
@@ fn messages::args::MessageArgs::new :: props=C06,C08,C09,C10 auto
@@ fn fragmentation::calculate_payload_limit :: props=C06,C07
@ spec
    requires fields_len <= 65517
    ensures r == 65517 - fields_len,
@@ fn fragmentation::create_tracing :: props=C07
@ spec
    ensures r == (Tracing { span_id: 0, parent_id: 0, trace_id: 0, trace_flags: TraceFlags { bits: 0 } }),
@@ fn fragmentation::checksum_len :: props=C06,C07
@ spec
    ensures r == (if checksum_type == ChecksumType::None { 1usize } else { 5usize }),
@@ fn fragmentation::calculate_checksum :: props=C06,C07
@ spec
    requires csum_type == ChecksumType::None
    ensures r is None,
@@ fn fragmentation::ArgsFragmenter::new :: props=C06,C07
@ spec
    ensures r.args@ == args@,
@@ fn fragmentation::ArgsFragmenter::is_empty :: props=C06,C07
@ spec
    ensures r == (self.args@.len() == 0),
@@ fn fragmentation::ArgsFragmenter::next_arg_fragment :: props=C06,C07,C11
@ spec
    ensures
        r.1 is Some ==> r.1->0@ + final(arg)@ =~= old(arg)@ && r.1->0@.len() <= payload_limit,
        r.1 is None ==> r.0 == FragmentationStatus::Incomplete && final(arg)@ == old(arg)@,
        r.0 != FragmentationStatus::Incomplete ==> final(arg)@.len() == 0,
        // the next argument's length has to fit, or this frame ends here
        r.0 == FragmentationStatus::Complete ==> payload_limit - r.1->0@.len() >= 2,
        payload_limit >= 0 ==> r.1 is Some,
        payload_limit >= 6 ==> (if old(arg)@.len() > 0 { r.1->0@.len() > 0 } else { r.0 == FragmentationStatus::Complete }),
@ hint start
    proof { let b = old(arg)@; assert(b.take(b.len() as int) =~= b); }
@@ fn fragmentation::ArgsFragmenter::next_frame_args_vec :: props=C06,C07,C11
@ spec
    requires payload_limit >= 8, payload_limit <= 65535
    ensures frame_step(bytes_list(old(self).args@), payload_limit as int, argsv(r@), bytes_list(final(self).args@)),
@ hint start
    let ghost lim0 = payload_limit; let ghost vp_old = bytes_list(self.args@);
    proof { assert(argsv(Seq::<Option<Bytes>>::empty()) =~= seq![]); assert(Seq::<Seq<u8>>::empty() + vp_old =~= vp_old); }
@ loop 0
    invariant_except_break payload_limit == lim0 - args_size(argsv(frame_args@)), vp_old == argsv(frame_args@) + bytes_list(self.args@),
        frame_args@.len() > 0 ==> payload_limit >= 2 && total(bytes_list(self.args@)) < total(vp_old),
        frame_args@.len() == 0 ==> payload_limit >= 8,
    invariant lim0 >= 8, lim0 <= 65535,
    ensures frame_step(vp_old, lim0 as int, argsv(frame_args@), bytes_list(self.args@)),
    decreases self.args@.len()
@ hint loopstart 0
    let ghost vp_l = self.args@; let ghost vp_fa = frame_args@; let ghost vp_f = argsv(frame_args@); let ghost vp_tot = total(bytes_list(vp_l));
    proof {
        if vp_l.len() > 0 {
            assert(bytes_list(vp_l) =~= seq![vp_l[0]@] + bytes_list(vp_l.skip(1)));
            lemma_total(vp_l[0]@, bytes_list(vp_l.skip(1)));
        } else { assert(vp_f + bytes_list(vp_l) =~= vp_f); }
    }
@ hint after next_arg_fragment 0
    let ghost vp_c = frame_arg_opt->0@; let ghost vp_a = arg@;
    proof {
        lemma_args_push(vp_f, vp_c);
        assert forall|o: Option<Bytes>| argv(o) == vp_c implies #[trigger] argsv(vp_fa.push(o)) == vp_f.push(vp_c) by { assert(argsv(vp_fa.push(o)) =~= vp_f.push(vp_c)); }
        if vp_c.len() == 0 { assert(vp_c =~= seq![]); }
        if vp_a.len() == 0 { assert(vp_a =~= seq![]); }
        lemma_total(vp_a, bytes_list(vp_l.skip(1)));
        assert(vp_c + vp_a =~= vp_l[0]@);
        lemma_split_last(vp_f, vp_c, vp_a, bytes_list(vp_l.skip(1)));
    }
@ hint before push_front 0
    proof { assert(bytes_list(seq![arg] + vp_l.skip(1)) =~= seq![vp_a] + bytes_list(vp_l.skip(1))); }
@ hint after push_front 1
    proof { assert(bytes_list(self.args@) =~= seq![vp_a] + bytes_list(vp_l.skip(1))); }
@ hint loopend 0
    proof { assert(vp_f + bytes_list(vp_l) =~= vp_f.push(vp_c) + bytes_list(vp_l.skip(1))); }
@@ module spec
    pub proof fn lemma_split_last(f: Args, c: Seq<u8>, a: Seq<u8>, rest: Args)
        ensures add_frame(f.push(c), seq![a] + rest) == f + (seq![c + a] + rest)
    { assert(f.push(c).drop_last() =~= f); assert((seq![a] + rest).skip(1) =~= rest); }
@@ fn fragmentation::Fragmenter::new :: props=C06,C07
@ spec
    ensures r.service_name == service_name, r.arg_scheme == args.arg_scheme, r.args_fragmenter.args@ == args.args@,
@@ fn fragmentation::Fragmenter::next_frame_args_vec :: props=C06,C07
@ spec
    requires 64 <= payload_limit <= 65535
    ensures frame_step(bytes_list(old(self).args_fragmenter.args@), payload_limit - (if checksum_type == ChecksumType::None { 1int } else { 5int }), argsv(r@), bytes_list(final(self).args_fragmenter.args@)),
        final(self).service_name == old(self).service_name, final(self).arg_scheme == old(self).arg_scheme,
@@ fn fragmentation::Fragmenter::next_frame_args :: props=C06,C07
@ spec
    requires 64 <= payload_limit <= 65535
    ensures cargsv(r) == none_args(cargsv(r).args), frame_step(bytes_list(old(self).args_fragmenter.args@), payload_limit - 1, cargsv(r).args, bytes_list(final(self).args_fragmenter.args@)),
        final(self).service_name == old(self).service_name, final(self).arg_scheme == old(self).arg_scheme,
@@ fn fragmentation::Fragmenter::current_frame_flag :: props=C06,C07
@ spec
    ensures r == more_flag(self.args_fragmenter.args@.len() > 0),
@@ fn fragmentation::Fragmenter::create_frames :: props=C06,C07,C11
@ spec
    requires forall|b: Seq<u8>| #[trigger] FIELDS::wire(fields.cv(), b) && FIELDS::fits(fields.cv(), 0) ==> b.len() <= 65000,
    ensures
        FIELDS::fits(fields.cv(), 0) && 1 <= self.args_fragmenter.args@.len() <= 3 ==> r is Ok,
        r is Ok ==> exists|f: Seq<u8>| #[trigger] FIELDS::wire(fields.cv(), f) && FIELDS::fits(fields.cv(), 0) && frames_of(r->Ok_0@, f, first_type, continuation_type, bytes_list(self.args_fragmenter.args@)),
@ hint start
    let ghost vp_all = bytes_list(self.args_fragmenter.args@); let ghost mut vp_ch: Seq<Args> = seq![]; let ghost vp_n = self.args_fragmenter.args@.len(); let ghost vp_cv = fields.cv();
@ hint after encode_bytes 0
    let ghost vp_fb = fields_bytes@;
@ hint after next_frame_args 0
    proof { vp_ch = vp_ch.push(cargsv(frame_args).args); lemma_cargs_size(cargsv(frame_args).args); reveal(sum_wire); assert(fold_frames(vp_ch.drop_last()) =~= seq![]); }
@ hint preloop 0
    proof {
        lemma_cargs_size(vp_ch[0]);
        assert(frag_frame(frames@[0], vp_fb, first_type, continuation_type, vp_ch, vp_self.args_fragmenter.args@.len() > 0, 0));
    }
@ loop 0
    invariant FIELDS::wire(vp_cv, vp_fb), FIELDS::fits(vp_cv, 0), vp_n >= 1, vp_n == self.args_fragmenter.args@.len(), vp_self.args_fragmenter.args@.len() <= vp_n,
        frag_stream(frames@, vp_fb, first_type, continuation_type, vp_ch, vp_self.args_fragmenter.args@.len() > 0),
        add_frame(fold_frames(vp_ch), bytes_list(vp_self.args_fragmenter.args@)) == vp_all,
    ensures vp_self.args_fragmenter.args@.len() == 0,
    decreases total(bytes_list(vp_self.args_fragmenter.args@))
@ hint loopstart 0
    let ghost vp_a0 = bytes_list(vp_self.args_fragmenter.args@); let ghost vp_c0 = vp_ch; let ghost vp_f0 = frames@;
@ hint after next_frame_args 1
    proof {
        let c = cargsv(frame_args).args; vp_ch = vp_ch.push(c); lemma_cargs_size(c); reveal(sum_wire); assert(sum_wire(ChecksumType::None, None).len() == 1); assert(args_size(c) <= 65516); assert(vp_ch.drop_last() =~= vp_c0);
        lemma_add_frame(fold_frames(vp_c0), c, bytes_list(vp_self.args_fragmenter.args@));
    }
@ hint loopend 0
    proof {
        let more = vp_self.args_fragmenter.args@.len() > 0; let n = vp_c0.len() as int;
        assert forall|i: int| 0 <= i < frames@.len() implies frag_frame(#[trigger] frames@[i], vp_fb, first_type, continuation_type, vp_ch, more, i) by {
            if i < n { assert(frames@[i] == vp_f0[i]); assert(frag_frame(vp_f0[i], vp_fb, first_type, continuation_type, vp_c0, true, i)); assert(vp_ch[i] == vp_c0[i]); }
        }
    }
@@ fn fragmentation::Fragmenter::create_headers :: props=C07,C09
@ spec
    requires !(self.arg_scheme is Custom)
    ensures strmap(r@) =~= call_headers(self.arg_scheme, self.service_name@),
@ hint start
    proof { lemma_names(TransportHeaderKey::ArgScheme, self.arg_scheme); }
@@ module shim
    impl VStr {
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    }
@@ module spec
    pub proof fn lemma_ascii_len(s: Seq<char>)
        requires is_ascii_chars(s)
        ensures encode_utf8(s).len() == s.len()
    { is_ascii_chars_encode_utf8(s); }
    pub proof fn lemma_names(k: TransportHeaderKey, s: ArgSchemeValue)
        requires !(s is Custom)
        ensures str_fits(1, key_name(k)), str_fits(1, scheme_name(s)), "as"@ != "cn"@
    {
        reveal_strlit("as"); reveal_strlit("cas"); reveal_strlit("caf"); reveal_strlit("cn"); reveal_strlit("re"); reveal_strlit("se"); reveal_strlit("fd"); reveal_strlit("sk");
        reveal_strlit("raw"); reveal_strlit("json"); reveal_strlit("http"); reveal_strlit("thrift"); reveal_strlit("sthrift");
        lemma_ascii_len(key_name(k)); lemma_ascii_len(scheme_name(s));
        assert("as"@[0] != "cn"@[0]);
    }
    pub proof fn lemma_pairs_small(s: Pairs)
        requires pairs_fit(1, s)
        ensures pairs_wire(1, s).len() <= 512 * s.len()
        decreases s.len()
    { reveal(str_wire); if s.len() > 0 { assert(str_fits(1, s[0].0) && str_fits(1, s[0].1)); assert forall|i: int| 0 <= i < s.skip(1).len() implies str_fits(1, (#[trigger] s.skip(1)[i]).0) && str_fits(1, s.skip(1)[i].1) by { assert(s.skip(1)[i] == s[i + 1]); } lemma_pairs_small(s.skip(1)); } }
    /// the headers of a call fit, and are short, when the service name fits
    pub proof fn lemma_call_headers(scheme: ArgSchemeValue, service: Seq<char>, h: Seq<u8>)
        requires !(scheme is Custom)
        ensures str_fits(1, service) ==> hdr_fits(1, call_headers(scheme, service)),
            hdr_fits(1, call_headers(scheme, service)) && hdr_wire(1, call_headers(scheme, service), h) ==> h.len() <= 1025,
    {
        reveal(hdr_wire); lemma_names(TransportHeaderKey::ArgScheme, scheme); lemma_names(TransportHeaderKey::CallerName, scheme);
        let m = call_headers(scheme, service);
        assert(Map::<Seq<char>, Seq<char>>::empty().len() == 0); let m1 = Map::<Seq<char>, Seq<char>>::empty().insert("as"@, scheme_name(scheme)); assert(m1.len() <= 1); assert(m.len() <= 2);
        if hdr_fits(1, m) && hdr_wire(1, m, h) {
            let s = choose|s: Pairs| #[trigger] pairs_of(m, s) && h == be(1, s.len()) + pairs_wire(1, s);
            assert(pairs_fit(1, s));
            lemma_pairs_small(s);
        }
    }
    pub open spec fn zero_tracing() -> Tracing { Tracing { span_id: 0, parent_id: 0, trace_id: 0, trace_flags: TraceFlags { bits: 0 } } }
    pub open spec fn call_req_fields(scheme: ArgSchemeValue, service: Seq<char>) -> ReqFieldsV { ReqFieldsV { ttl: 60000, tracing: zero_tracing(), service, headers: call_headers(scheme, service) } }
    pub open spec fn call_res_fields(code: ResponseCode, scheme: ArgSchemeValue, service: Seq<char>) -> ResFieldsV { ResFieldsV { code, tracing: zero_tracing(), headers: call_headers(scheme, service) } }
    pub proof fn lemma_call_fields(code: ResponseCode, scheme: ArgSchemeValue, service: Seq<char>, b: Seq<u8>)
        requires !(scheme is Custom)
        ensures str_fits(1, service) ==> reqf_fits(call_req_fields(scheme, service)) && resf_fits(call_res_fields(code, scheme, service)),
            reqf_fits(call_req_fields(scheme, service)) && reqf_wire(call_req_fields(scheme, service), b) ==> b.len() <= 2000,
            resf_fits(call_res_fields(code, scheme, service)) && resf_wire(call_res_fields(code, scheme, service), b) ==> b.len() <= 2000,
    {
        reveal(reqf_wire); reveal(resf_wire); reveal(str_wire);
        let q = call_req_fields(scheme, service); let s = call_res_fields(code, scheme, service);
        lemma_call_headers(scheme, service, seq![]);
        lemma_tracing(zero_tracing(), seq![]); lemma_be32(60000);
        if reqf_fits(q) && reqf_wire(q, b) {
            let h = choose|h: Seq<u8>| #[trigger] hdr_wire(1, q.headers, h) && b == be32(q.ttl as nat) + (tracing_wire(q.tracing) + (str_wire(1, q.service) + h));
            lemma_call_headers(scheme, service, h);
        }
        if resf_fits(s) && resf_wire(s, b) {
            let h = choose|h: Seq<u8>| #[trigger] hdr_wire(1, s.headers, h) && b == seq![response_code(s.code) as u8] + (tracing_wire(s.tracing) + h);
            lemma_call_headers(scheme, service, h);
        }
    }
    /// the frames of a request / of a response
    pub open spec fn request_frames(fs: Seq<TFrame>, scheme: ArgSchemeValue, service: Seq<char>, args: Args) -> bool {
        exists|f: Seq<u8>| #[trigger] reqf_wire(call_req_fields(scheme, service), f) && reqf_fits(call_req_fields(scheme, service)) && frames_of(fs, f, Type::CallRequest, Type::CallRequestContinue, args)
    }
    pub open spec fn response_frames(fs: Seq<TFrame>, code: ResponseCode, scheme: ArgSchemeValue, service: Seq<char>, args: Args) -> bool {
        exists|f: Seq<u8>| #[trigger] resf_wire(call_res_fields(code, scheme, service), f) && resf_fits(call_res_fields(code, scheme, service)) && frames_of(fs, f, Type::CallResponse, Type::CallResponseContinue, args)
    }
@@ fn fragmentation::RequestFragmenter::new :: props=C06,C07
@ spec
    ensures r.fragmenter.service_name == service_name, r.fragmenter.arg_scheme == args.arg_scheme, r.fragmenter.args_fragmenter.args@ == args.args@,
@@ fn fragmentation::RequestFragmenter::create_frames :: props=C06,C07,C11
@ spec
    requires !(self.fragmenter.arg_scheme is Custom)
    ensures
        str_fits(1, self.fragmenter.service_name@) && 1 <= self.fragmenter.args_fragmenter.args@.len() <= 3 ==> r is Ok,
        r is Ok ==> request_frames(r->Ok_0@, self.fragmenter.arg_scheme, self.fragmenter.service_name@, bytes_list(self.fragmenter.args_fragmenter.args@)),
@ hint start
    proof { assert forall|b: Seq<u8>| #[trigger] reqf_wire(call_req_fields(self.fragmenter.arg_scheme, self.fragmenter.service_name@), b) && reqf_fits(call_req_fields(self.fragmenter.arg_scheme, self.fragmenter.service_name@)) implies b.len() <= 65000 by {
            lemma_call_fields(ResponseCode::Ok, self.fragmenter.arg_scheme, self.fragmenter.service_name@, b); }
        lemma_call_fields(ResponseCode::Ok, self.fragmenter.arg_scheme, self.fragmenter.service_name@, seq![]); }
@@ fn fragmentation::RequestFragmenter::create_fields :: props=C07,C09
@ spec
    requires !(self.fragmenter.arg_scheme is Custom)
    ensures reqfv(r) == call_req_fields(self.fragmenter.arg_scheme, self.fragmenter.service_name@),
@@ fn fragmentation::RequestFragmenter::create_headers :: props=C07,C09
@ spec
    requires !(self.fragmenter.arg_scheme is Custom)
    ensures strmap(r@) == call_headers(self.fragmenter.arg_scheme, self.fragmenter.service_name@),
@@ fn fragmentation::ResponseFragmenter::new :: props=C06,C07
@ spec
    ensures r.fragmenter.service_name@ == service_name.sv(), r.fragmenter.arg_scheme == args.arg_scheme, r.fragmenter.args_fragmenter.args@ == args.args@, r.response_code == response_code,
@@ fn fragmentation::ResponseFragmenter::create_frames :: props=C06,C07,C11
@ spec
    requires !(self.fragmenter.arg_scheme is Custom)
    ensures
        str_fits(1, self.fragmenter.service_name@) && 1 <= self.fragmenter.args_fragmenter.args@.len() <= 3 ==> r is Ok,
        r is Ok ==> response_frames(r->Ok_0@, self.response_code, self.fragmenter.arg_scheme, self.fragmenter.service_name@, bytes_list(self.fragmenter.args_fragmenter.args@)),
@ hint start
    proof { assert forall|b: Seq<u8>| #[trigger] resf_wire(call_res_fields(self.response_code, self.fragmenter.arg_scheme, self.fragmenter.service_name@), b) && resf_fits(call_res_fields(self.response_code, self.fragmenter.arg_scheme, self.fragmenter.service_name@)) implies b.len() <= 65000 by {
            lemma_call_fields(self.response_code, self.fragmenter.arg_scheme, self.fragmenter.service_name@, b); }
        lemma_call_fields(self.response_code, self.fragmenter.arg_scheme, self.fragmenter.service_name@, seq![]); }
@@ fn fragmentation::ResponseFragmenter::create_response_fields :: props=C07,C09,C11
@ spec
    requires !(self.fragmenter.arg_scheme is Custom)
    ensures resfv(r) == call_res_fields(self.response_code, self.fragmenter.arg_scheme, self.fragmenter.service_name@),
@@ fn fragmentation::ResponseFragmenter::create_headers :: props=C07,C09
@ spec
    requires !(self.fragmenter.arg_scheme is Custom)
    ensures strmap(r@) == call_headers(self.fragmenter.arg_scheme, self.fragmenter.service_name@),
