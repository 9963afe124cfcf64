@@ module spec
    /// the same frames under message ids
    pub open spec fn with_ids(fs: Seq<TFrame>, ids: Seq<TFrameId>) -> bool { ids.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> (#[trigger] ids[i]).frame == fs[i] }
    pub proof fn lemma_scheme_names(s: ArgSchemeValue, n: Seq<char>)
        ensures !(s is Custom) ==> scheme_of(scheme_name(s)) == Some(s), scheme_of(n) is Some ==> scheme_name(scheme_of(n)->0) == n && !(scheme_of(n)->0 is Custom)
    {
        reveal_strlit("raw"); reveal_strlit("json"); reveal_strlit("http"); reveal_strlit("thrift"); reveal_strlit("sthrift");
        assert("raw"@[0] == 'r' && "json"@[0] == 'j' && "http"@[0] == 'h' && "thrift"@[0] == 't' && "sthrift"@[0] == 's');
        assert("raw"@ != "json"@ && "raw"@ != "http"@ && "raw"@ != "thrift"@ && "raw"@ != "sthrift"@ && "json"@ != "http"@ && "json"@ != "thrift"@ && "json"@ != "sthrift"@ && "http"@ != "thrift"@ && "http"@ != "sthrift"@ && "thrift"@ != "sthrift"@);
    }
    pub proof fn lemma_declared(scheme: ArgSchemeValue, service: Seq<char>)
        requires !(scheme is Custom)
        ensures scheme_decl(call_headers(scheme, service)) == Some(scheme)
    { lemma_names(TransportHeaderKey::ArgScheme, scheme); lemma_scheme_names(scheme, seq![]); }
    pub proof fn lemma_more(m: bool)
        ensures more(more_flag(m)) == m, flags_ok(more_flag(m))
    { assert(1u8 & 1 == 1) by (bit_vector); assert(0u8 & 1 == 0) by (bit_vector); }
    pub proof fn lemma_none_fit(c: Args, n: nat)
        requires 1 <= c.len() <= 3, n + cargs_wire(none_args(c)).len() <= 65518
        ensures cargs_fit(none_args(c), n), args_ok(none_args(c))
    { lemma_cargs_size(c); reveal(sum_wire); }
    /// the continuation frames carry on the arguments
    pub proof fn lemma_cont(fs: Seq<TFrame>, ids: Seq<TFrameId>, fields: Seq<u8>, ty: Type, cty: Type, chunks: Seq<Args>, k: int)
        requires frag_stream(fs, fields, ty, cty, chunks, false), with_ids(fs, ids), 1 <= k < fs.len(), cty == Type::CallRequestContinue || cty == Type::CallResponseContinue
        ensures cont_fold(fold_frames(chunks.take(k)), ids.skip(k)) == Some((fold_frames(chunks), (fs.len() - k) as nat))
        decreases fs.len() - k
    {
        let n = fs.len() as int; let m = k + 1 < n; let fl = more_flag(m); let c = chunks[k]; let v = ContV { flags: fl, args: none_args(c) };
        assert(frag_frame(fs[k], fields, ty, cty, chunks, false, k));
        assert(ids[k].frame == fs[k]);
        lemma_more(m); lemma_none_fit(c, 1); theorem_c05_call_continue(v, fs[k].payload@);
        assert(ids.skip(k)[0] == ids[k] && ids.skip(k).skip(1) =~= ids.skip(k + 1));
        assert(chunks.take(k + 1).drop_last() =~= chunks.take(k) && chunks.take(k + 1).last() == c);
        assert(chunks.take(n) =~= chunks);
        if m { lemma_cont(fs, ids, fields, ty, cty, chunks, k + 1); }
    }
    pub proof fn lemma_rest(fs: Seq<TFrame>, ids: Seq<TFrameId>, fields: Seq<u8>, ty: Type, cty: Type, chunks: Seq<Args>)
        requires frag_stream(fs, fields, ty, cty, chunks, false), with_ids(fs, ids), cty == Type::CallRequestContinue || cty == Type::CallResponseContinue
        ensures rest_args(more_flag(fs.len() > 1), add_frame(seq![], chunks[0]), ids.skip(1)) == Some(fold_frames(chunks))
    {
        lemma_more(fs.len() > 1);
        assert(chunks.take(1).drop_last() =~= seq![] && chunks.take(1).last() == chunks[0] && fold_frames(seq![]) =~= seq![]);
        reveal_with_fuel(fold_frames, 2);
        assert(fold_frames(chunks.take(1)) == add_frame(seq![], chunks[0]));
        if fs.len() > 1 { lemma_cont(fs, ids, fields, ty, cty, chunks, 1); } else { assert(chunks.take(1) =~= chunks); }
    }
    /// C06, C07, C09: what the fragmenter makes of a request, the reader gets back: service, time to live, headers, scheme and arguments
    pub proof fn theorem_c06_request(fs: Seq<TFrame>, ids: Seq<TFrameId>, scheme: ArgSchemeValue, service: Seq<char>, args: Args)
        requires request_frames(fs, scheme, service, args), with_ids(fs, ids), !(scheme is Custom)
        ensures req_read(ids) == Some((call_req_fields(scheme, service), scheme, args))
    {
        let q = call_req_fields(scheme, service);
        let f = choose|f: Seq<u8>| #[trigger] reqf_wire(q, f) && reqf_fits(q) && frames_of(fs, f, Type::CallRequest, Type::CallRequestContinue, args);
        let chunks = choose|chunks: Seq<Args>| #[trigger] frag_stream(fs, f, Type::CallRequest, Type::CallRequestContinue, chunks, false) && fold_frames(chunks) == args;
        let m = fs.len() > 1; let a = none_args(chunks[0]);
        assert(frag_frame(fs[0], f, Type::CallRequest, Type::CallRequestContinue, chunks, false, 0));
        assert(ids[0].frame == fs[0]);
        lemma_more(m); lemma_none_fit(chunks[0], 1 + f.len());
        theorem_c05_call_fields_encoded(EncV { flags: more_flag(m), fields: f, args: a }, ReqV { flags: more_flag(m), fields: q, args: a }, fs[0].payload@);
        lemma_declared(scheme, service);
        lemma_rest(fs, ids, f, Type::CallRequest, Type::CallRequestContinue, chunks);
    }
    pub proof fn theorem_c06_response(fs: Seq<TFrame>, ids: Seq<TFrameId>, code: ResponseCode, scheme: ArgSchemeValue, service: Seq<char>, args: Args)
        requires response_frames(fs, code, scheme, service, args), with_ids(fs, ids), !(scheme is Custom)
        ensures res_read(ids) == Some((call_res_fields(code, scheme, service), scheme, args))
    {
        let q = call_res_fields(code, scheme, service);
        let f = choose|f: Seq<u8>| #[trigger] resf_wire(q, f) && resf_fits(q) && frames_of(fs, f, Type::CallResponse, Type::CallResponseContinue, args);
        let chunks = choose|chunks: Seq<Args>| #[trigger] frag_stream(fs, f, Type::CallResponse, Type::CallResponseContinue, chunks, false) && fold_frames(chunks) == args;
        let m = fs.len() > 1; let a = none_args(chunks[0]);
        assert(frag_frame(fs[0], f, Type::CallResponse, Type::CallResponseContinue, chunks, false, 0));
        assert(ids[0].frame == fs[0]);
        lemma_more(m); lemma_none_fit(chunks[0], 1 + f.len());
        let v = ResV { flags: more_flag(m), fields: q, args: a };
        assert(fs[0].payload@ == seq![v.flags.bits] + (f + cargs_wire(a)) && res_wire(v, fs[0].payload@) && res_fits(v, 0));
        theorem_c05_call_response(v, fs[0].payload@);
        lemma_declared(scheme, service);
        lemma_rest(fs, ids, f, Type::CallResponse, Type::CallResponseContinue, chunks);
    }
    /// C07: the shape of a fragment stream, told from its frames alone
    pub proof fn theorem_c07_stream(fs: Seq<TFrame>, fields: Seq<u8>, ty: Type, cty: Type, args: Args, i: int)
        requires frames_of(fs, fields, ty, cty, args), 0 <= i < fs.len()
        ensures fs[i].frame_type == (if i == 0 { ty } else { cty }), fs[i].payload@.len() + 16 <= 65534, more(Flags { bits: fs[i].payload@[0] }) == (i + 1 < fs.len()),
            i > 0 ==> exists|c: Args| 1 <= c.len() <= 3 && cont_parse(fs[i].payload@) == Some((ContV { flags: more_flag(i + 1 < fs.len()), args: #[trigger] none_args(c) }, fs[i].payload@.len())),
            i == 0 ==> exists|c: Args| 1 <= c.len() <= 3 && fs[i].payload@ == enc_wire(EncV { flags: more_flag(i + 1 < fs.len()), fields, args: #[trigger] none_args(c) }),
    {
        let chunks = choose|chunks: Seq<Args>| #[trigger] frag_stream(fs, fields, ty, cty, chunks, false) && fold_frames(chunks) == args;
        assert(frag_frame(fs[i], fields, ty, cty, chunks, false, i));
        lemma_more(i + 1 < fs.len());
        let c = chunks[i];
        if i > 0 { lemma_none_fit(c, 1); theorem_c05_call_continue(ContV { flags: more_flag(i + 1 < fs.len()), args: none_args(c) }, fs[i].payload@); }
        assert(none_args(c) == none_args(chunks[i]));
    }
    /// C08: a message is accepted only up to and including the first frame without the more-fragments flag, all frames before it being usable continuations
    pub proof fn theorem_c08_fold(acc: Args, fs: Seq<TFrameId>)
        ensures match cont_fold(acc, fs) {
            Some((_, n)) => 1 <= n <= fs.len() && (forall|i: int| 0 <= i < n ==> #[trigger] cont_frame(fs[i]) is Some && more((cont_frame(fs[i])->0).flags) == (i + 1 < n)),
            None => true,
        }
        decreases fs.len()
    {
        if cont_fold(acc, fs) is Some {
            let c = cont_frame(fs[0])->0; let n = (cont_fold(acc, fs)->0).1;
            if more(c.flags) {
                theorem_c08_fold(add_frame(acc, c.args.args), fs.skip(1));
                assert forall|i: int| 0 <= i < n implies #[trigger] cont_frame(fs[i]) is Some && more((cont_frame(fs[i])->0).flags) == (i + 1 < n) by { if i > 0 { assert(fs.skip(1)[i - 1] == fs[i]); } }
            }
        }
    }
    /// C08: frames after the last fragment are not part of the message, and a message cut short is no message
    pub proof fn theorem_c08_complete(acc: Args, fs: Seq<TFrameId>, rest: Seq<TFrameId>, k: int)
        requires cont_fold(acc, fs) is Some
        ensures cont_fold(acc, fs + rest) == cont_fold(acc, fs), 0 <= k < (cont_fold(acc, fs)->0).1 ==> cont_fold(acc, fs.take(k)) is None
        decreases fs.len()
    {
        let c = cont_frame(fs[0])->0;
        assert((fs + rest)[0] == fs[0] && (fs + rest).skip(1) =~= fs.skip(1) + rest);
        theorem_c08_fold(acc, fs);
        if more(c.flags) { theorem_c08_complete(add_frame(acc, c.args.args), fs.skip(1), rest, k - 1); }
        if 0 < k < (cont_fold(acc, fs)->0).1 { assert(fs.take(k)[0] == fs[0] && fs.take(k).skip(1) =~= fs.skip(1).take(k - 1)); }
    }
    /// C08: an error frame, a frame of another type or one that cannot be decoded before the last fragment makes the message fail
    pub proof fn theorem_c08_bad_frame(acc: Args, fs: Seq<TFrameId>, k: int)
        requires 0 <= k < fs.len(), cont_frame(fs[k]) is None, forall|i: int| 0 <= i < k ==> #[trigger] cont_frame(fs[i]) is Some && more((cont_frame(fs[i])->0).flags)
        ensures cont_fold(acc, fs) is None
        decreases k
    {
        if k > 0 {
            let c = cont_frame(fs[0])->0;
            assert(fs.skip(1)[k - 1] == fs[k]);
            assert forall|i: int| 0 <= i < k - 1 implies #[trigger] cont_frame(fs.skip(1)[i]) is Some && more((cont_frame(fs.skip(1)[i])->0).flags) by { assert(fs.skip(1)[i] == fs[i + 1]); }
            theorem_c08_bad_frame(add_frame(acc, c.args.args), fs.skip(1), k - 1);
        }
    }
    /// C09: names and values correspond one to one, and declared is what was meant
    pub proof fn theorem_c09_schemes(s: ArgSchemeValue, n: Seq<char>, service: Seq<char>)
        requires !(s is Custom)
        ensures scheme_of(scheme_name(s)) == Some(s), scheme_of(n) is Some ==> scheme_name(scheme_of(n)->0) == n,
            scheme_decl(call_headers(s, service)) == Some(s), call_headers(s, service).contains_key("as"@), call_headers(s, service).contains_key("cn"@), call_headers(s, service)["cn"@] == service
    { lemma_scheme_names(s, n); lemma_declared(s, service); lemma_names(TransportHeaderKey::ArgScheme, s); }
