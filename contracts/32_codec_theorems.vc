@@ module spec
    // ---------- C05: what is encoded reads back equal, whatever follows it
    pub proof fn lemma_tracing(t: Tracing, rest: Seq<u8>)
        requires tracing_ok(t)
        ensures tracing_parse(tracing_wire(t) + rest) == Some((t, 25nat)), tracing_wire(t).len() == 25, (tracing_wire(t) + rest).skip(25) == rest
    {
        reveal(tracing_wire); reveal(tracing_parse);
        let a = be64(t.span_id as nat); let b = be64(t.parent_id as nat); let c = be64(t.trace_id as nat); let d = seq![t.trace_flags.bits];
        lemma_be64(t.span_id as nat); lemma_be64(t.parent_id as nat); lemma_be64(t.trace_id as nat);
        let w = tracing_wire(t) + rest;
        assert(w == a + (b + (c + (d + rest)))) by { broadcast use group_bytes; }
        lemma_of_prefix(a, b + (c + (d + rest)));
        assert(w.skip(8) == b + (c + (d + rest))) by { broadcast use group_bytes; }
        lemma_of_prefix(b, c + (d + rest));
        assert(w.skip(16) == c + (d + rest)) by { broadcast use group_bytes; assert(w.skip(8).skip(8) == w.skip(16)); }
        lemma_of_prefix(c, d + rest);
        assert(w.skip(24) == d + rest) by { broadcast use group_bytes; assert(w.skip(16).skip(8) == w.skip(24)); }
        assert(w[24] == w.skip(24)[0]);
        lemma_skip(tracing_wire(t), rest);
    }
    pub proof fn lemma_sum(ct: ChecksumType, cs: Option<u32>, rest: Seq<u8>)
        requires ct != ChecksumType::None ==> cs is Some, ct == ChecksumType::None ==> cs is None
        ensures sum_parse(sum_wire(ct, cs) + rest) == Some((ct, cs, sum_wire(ct, cs).len())), (sum_wire(ct, cs) + rest).skip(sum_wire(ct, cs).len() as int) == rest
    {
        reveal(sum_wire); reveal(sum_parse);
        lemma_skip(sum_wire(ct, cs), rest);
        if ct != ChecksumType::None {
            let c = seq![checksum_code(ct) as u8]; let n = be32(cs->0 as nat);
            lemma_be32(cs->0 as nat);
            assert((sum_wire(ct, cs) + rest).skip(1) == n + rest) by { broadcast use group_bytes; }
            lemma_of_prefix(n, rest);
        }
    }
    pub proof fn lemma_cargs(v: ArgsV)
        requires cargs_fit(v, 0), v.ct == ChecksumType::None ==> v.cs is None
        ensures cargs_parse(cargs_wire(v)) == Some((v, cargs_wire(v).len()))
    {
        reveal(cargs_wire); reveal(cargs_parse);
        lemma_sum(v.ct, v.cs, args_wire(v.args));
        lemma_args_len(v.args); lemma_args(v.args, 3);
        assert(v.args[0].len() + 2 <= args_size(v.args));
    }
    pub proof fn theorem_c05_init(v: InitV, b: Seq<u8>, rest: Seq<u8>)
        requires hdr_fits(2, v.headers), init_wire(v, b)
        ensures init_parse(b + rest) == Some((v, b.len()))
    {
        let h = choose|h: Seq<u8>| #[trigger] hdr_wire(2, v.headers, h) && b == be16(v.version as nat) + h;
        lemma_be16(v.version as nat); lemma_of_prefix(be16(v.version as nat), h + rest);
        lemma_hdr(2, v.headers, h, rest);
        assert(b + rest == be16(v.version as nat) + (h + rest)) by { broadcast use group_bytes; }
        lemma_skip(be16(v.version as nat), h + rest);
    }
    pub proof fn lemma_reqf(v: ReqFieldsV, b: Seq<u8>, rest: Seq<u8>)
        requires reqf_fits(v), reqf_wire(v, b), tracing_ok(v.tracing)
        ensures reqf_parse(b + rest) == Some((v, b.len()))
    {
        reveal(reqf_wire); reveal(reqf_parse);
        let h = choose|h: Seq<u8>| #[trigger] hdr_wire(1, v.headers, h) && b == be32(v.ttl as nat) + (tracing_wire(v.tracing) + (str_wire(1, v.service) + h));
        let t = be32(v.ttl as nat); let tr = tracing_wire(v.tracing); let s = str_wire(1, v.service);
        lemma_be32(v.ttl as nat);
        assert(b + rest == t + (tr + (s + (h + rest)))) by { broadcast use group_bytes; }
        lemma_of_prefix(t, tr + (s + (h + rest))); lemma_skip(t, tr + (s + (h + rest)));
        lemma_tracing(v.tracing, s + (h + rest));
        assert((b + rest).skip(29) == s + (h + rest)) by { broadcast use group_bytes; assert((b + rest).skip(4).skip(25) == (b + rest).skip(29)); }
        lemma_str(1, v.service, h + rest);
        assert((b + rest).skip(29 + s.len() as int) == h + rest) by { broadcast use group_bytes; assert((b + rest).skip(29).skip(s.len() as int) == (b + rest).skip(29 + s.len() as int)); }
        lemma_hdr(1, v.headers, h, rest);
    }
    pub proof fn lemma_resf(v: ResFieldsV, b: Seq<u8>, rest: Seq<u8>)
        requires resf_fits(v), resf_wire(v, b), tracing_ok(v.tracing)
        ensures resf_parse(b + rest) == Some((v, b.len()))
    {
        reveal(resf_wire); reveal(resf_parse);
        lemma_codes(ChecksumType::None, ErrorCode::Invalid, v.code);
        let h = choose|h: Seq<u8>| #[trigger] hdr_wire(1, v.headers, h) && b == seq![response_code(v.code) as u8] + (tracing_wire(v.tracing) + h);
        let c = seq![response_code(v.code) as u8]; let tr = tracing_wire(v.tracing);
        assert(b + rest == c + (tr + (h + rest))) by { broadcast use group_bytes; }
        lemma_skip(c, tr + (h + rest));
        lemma_tracing(v.tracing, h + rest);
        assert((b + rest).skip(26) == h + rest) by { broadcast use group_bytes; assert((b + rest).skip(1).skip(25) == (b + rest).skip(26)); }
        lemma_hdr(1, v.headers, h, rest);
    }
    pub open spec fn args_ok(v: ArgsV) -> bool { v.ct == ChecksumType::None ==> v.cs is None }
    pub proof fn theorem_c05_call_request(v: ReqV, b: Seq<u8>)
        requires req_fits(v, 0), req_wire(v, b), flags_ok(v.flags), tracing_ok(v.fields.tracing), args_ok(v.args)
        ensures req_parse(b) == Some((v, b.len()))
    {
        let f = choose|f: Seq<u8>| #[trigger] reqf_wire(v.fields, f) && b == seq![v.flags.bits] + (f + cargs_wire(v.args));
        let a = cargs_wire(v.args);
        lemma_skip(seq![v.flags.bits], f + a);
        lemma_reqf(v.fields, f, a);
        lemma_cargs(v.args);
        assert(b.skip(1 + f.len() as int) == a) by { broadcast use group_bytes; assert(b.skip(1).skip(f.len() as int) == b.skip(1 + f.len() as int)); }
    }
    /// the request written from already encoded fields is the request with those fields
    pub proof fn theorem_c05_call_fields_encoded(v: EncV, w: ReqV, b: Seq<u8>)
        requires reqf_wire(w.fields, v.fields), reqf_fits(w.fields), w.flags == v.flags, w.args == v.args, b == enc_wire(v), cargs_fit(v.args, 1 + v.fields.len()),
            flags_ok(v.flags), tracing_ok(w.fields.tracing), args_ok(v.args)
        ensures req_wire(w, b), req_parse(b) == Some((w, b.len()))
    { assert(req_wire(w, b)); theorem_c05_call_request(w, b); }
    pub proof fn theorem_c05_call_response(v: ResV, b: Seq<u8>)
        requires res_fits(v, 0), res_wire(v, b), flags_ok(v.flags), tracing_ok(v.fields.tracing), args_ok(v.args)
        ensures res_parse(b) == Some((v, b.len()))
    {
        let f = choose|f: Seq<u8>| #[trigger] resf_wire(v.fields, f) && b == seq![v.flags.bits] + (f + cargs_wire(v.args));
        let a = cargs_wire(v.args);
        lemma_skip(seq![v.flags.bits], f + a);
        lemma_resf(v.fields, f, a);
        lemma_cargs(v.args);
        assert(b.skip(1 + f.len() as int) == a) by { broadcast use group_bytes; assert(b.skip(1).skip(f.len() as int) == b.skip(1 + f.len() as int)); }
    }
    pub proof fn theorem_c05_call_continue(v: ContV, b: Seq<u8>)
        requires cargs_fit(v.args, 1), b == cont_wire(v), flags_ok(v.flags), args_ok(v.args)
        ensures cont_parse(b) == Some((v, b.len()))
    { lemma_skip(seq![v.flags.bits], cargs_wire(v.args)); lemma_cargs(v.args); }
    pub proof fn theorem_c05_cancel(v: CancelV, rest: Seq<u8>)
        requires str_fits(2, v.why), tracing_ok(v.tracing)
        ensures cancel_parse(cancel_wire(v) + rest) == Some((v, cancel_wire(v).len()))
    {
        let t = be32(v.ttl as nat); let tr = tracing_wire(v.tracing); let s = str_wire(2, v.why);
        lemma_be32(v.ttl as nat);
        let b = cancel_wire(v) + rest;
        assert(b == t + (tr + (s + rest))) by { broadcast use group_bytes; }
        lemma_of_prefix(t, tr + (s + rest)); lemma_skip(t, tr + (s + rest));
        lemma_tracing(v.tracing, s + rest);
        assert(b.skip(29) == s + rest) by { broadcast use group_bytes; assert(b.skip(4).skip(25) == b.skip(29)); }
        lemma_str(2, v.why, rest);
    }
    pub proof fn theorem_c05_claim(ttl: u32, tracing: Tracing, rest: Seq<u8>)
        requires tracing_ok(tracing)
        ensures claim_parse(claim_wire(ttl, tracing) + rest) == Some(((ttl, tracing), 29nat)), claim_wire(ttl, tracing).len() == 29
    {
        let t = be32(ttl as nat); let tr = tracing_wire(tracing);
        lemma_be32(ttl as nat);
        let b = claim_wire(ttl, tracing) + rest;
        assert(b == t + (tr + rest)) by { broadcast use group_bytes; }
        lemma_of_prefix(t, tr + rest); lemma_skip(t, tr + rest);
        lemma_tracing(tracing, rest);
    }
    pub proof fn theorem_c05_error(v: ErrorV, rest: Seq<u8>)
        requires str_fits(2, v.message), tracing_ok(v.tracing)
        ensures error_parse(error_wire(v) + rest) == Some((v, error_wire(v).len()))
    {
        lemma_codes(ChecksumType::None, v.code, ResponseCode::Ok);
        let c = seq![error_code(v.code) as u8]; let tr = tracing_wire(v.tracing); let s = str_wire(2, v.message);
        let b = error_wire(v) + rest;
        assert(b == c + (tr + (s + rest))) by { broadcast use group_bytes; }
        lemma_skip(c, tr + (s + rest));
        lemma_tracing(v.tracing, s + rest);
        assert(b.skip(26) == s + rest) by { broadcast use group_bytes; assert(b.skip(1).skip(25) == b.skip(26)); }
        lemma_str(2, v.message, rest);
    }
    /// an empty argument chunk and an absent one are the same on the wire
    pub proof fn theorem_c05_empty_is_absent(a: Bytes)
        requires a@.len() == 0
        ensures argv(Some(a)) == argv(None)
    { assert(a@ =~= seq![]); }
    // ---------- C04: length and count fields tell what follows them
    pub proof fn theorem_c04_strings(w: nat, s: Seq<char>)
        requires w == 1 || w == 2, str_fits(w, s)
        ensures of(w, str_wire(w, s)) == str_wire(w, s).len() - w, str_wire(w, s).skip(w as int) == encode_utf8(s)
    { reveal(str_wire); lemma_be(w, encode_utf8(s).len(), encode_utf8(s)); }
    pub proof fn theorem_c04_headers(w: nat, m: Map<Seq<char>, Seq<char>>, b: Seq<u8>)
        requires w == 1 || w == 2, hdr_fits(w, m), hdr_wire(w, m, b)
        ensures of(w, b) == m.len(), exists|s: Pairs| #[trigger] pairs_of(m, s) && b.skip(w as int) == pairs_wire(w, s)
    {
        reveal(hdr_wire);
        let s = choose|s: Pairs| #[trigger] pairs_of(m, s) && b == be(w, s.len()) + pairs_wire(w, s);
        lemma_be(w, s.len(), pairs_wire(w, s));
    }
    pub proof fn theorem_c04_args(a: Seq<Seq<u8>>, n: nat)
        requires args_fit(a, n)
        ensures of16(args_wire(a)) == a[0].len(), args_wire(a).len() == args_size(a), n + args_wire(a).len() + 16 <= 65534, 1 <= a.len() <= 3,
            args_wire(a).skip(2).take(a[0].len() as int) == a[0], args_wire(a).skip(2 + a[0].len() as int) == args_wire(a.skip(1))
    {
        reveal_with_fuel(args_wire, 2);
        lemma_args_len(a); assert(a[0].len() + 2 <= args_size(a));
        let t = args_wire(a.skip(1)); let l = be16(a[0].len());
        lemma_be16(a[0].len());
        assert(args_wire(a) == l + (a[0] + t)) by { broadcast use group_bytes; }
        lemma_of_prefix(l, a[0] + t); lemma_skip(l, a[0] + t); lemma_skip(a[0], t);
        b_skip_skip(args_wire(a), 2, a[0].len() as int);
    }
    // ---------- C03: a payload that is too short for what it announces is refused
    pub proof fn theorem_c03_truncated_string(w: nat, b: Seq<u8>)
        requires w == 1 || w == 2, b.len() < w || b.len() < w + of(w, b)
        ensures str_parse(w, b) is None
    { reveal(str_parse); }
    pub proof fn theorem_c03_args(b: Seq<u8>, k: nat)
        ensures args_parse(b, k) is Some ==> (args_parse(b, k)->0).len() <= k && args_size(args_parse(b, k)->0) == b.len()
        decreases k
    {
        if b.len() > 0 && k > 0 && b.len() >= 2 && of16(b) <= b.len() - 2 {
            let t = b.skip(2 + of16(b) as int);
            theorem_c03_args(t, (k - 1) as nat);
            if args_parse(t, (k - 1) as nat) is Some {
                let r = args_parse(t, (k - 1) as nat)->0; let x = b.skip(2).take(of16(b) as int);
                assert((seq![x] + r).skip(1) =~= r);
            }
        }
    }
