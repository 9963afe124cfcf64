@@ item frames::payloads::PROTOCOL_VERSION
@@ item frames::payloads::MAX_FRAME_ARGS
@@ item frames::payloads::ARG_LEN_LEN
@@ item frames::payloads::CodecResult
@@ item frames::payloads::Codec
@@ item frames::payloads::ChecksumType #[derive(Clone, Copy)] +eq
@@ item frames::payloads::ErrorCode #[derive(Clone, Copy)] +eq
@@ item frames::payloads::Flags
@@ item frames::payloads::TraceFlags
@@ item frames::payloads::Tracing
@@ item frames::payloads::Init
@@ item frames::payloads::CallArgs
@@ item frames::payloads::CallWithFieldsEncoded
@@ item frames::payloads::Call
@@ item frames::payloads::CallFields
@@ item frames::payloads::CallRequestFields
@@ item frames::payloads::CallRequest
@@ item frames::payloads::CallResponseFields
@@ item frames::payloads::CallResponse
@@ item frames::payloads::CallContinue
@@ item frames::payloads::Cancel
@@ item frames::payloads::Claim
@@ item frames::payloads::ErrorMsg
@@ item messages::args::ResponseCode #[derive(Clone, Copy)] +eq
@@ module frames::payloads
    broadcast use {group_bytes, group_parse};
@@ module spec
    use crate::frames::payloads::*;
    use crate::messages::args::ResponseCode;
    use vstd::utf8::*;
    // ---------- codes
    pub open spec fn checksum_code(c: ChecksumType) -> int { match c { ChecksumType::None => 0, ChecksumType::Crc32 => 1, ChecksumType::Farmhash => 2, ChecksumType::Crc32C => 3 } }
    pub open spec fn checksum_of(n: int) -> Option<ChecksumType> {
        if n == 0 { Some(ChecksumType::None) } else if n == 1 { Some(ChecksumType::Crc32) } else if n == 2 { Some(ChecksumType::Farmhash) } else if n == 3 { Some(ChecksumType::Crc32C) } else { None }
    }
    pub open spec fn error_code(c: ErrorCode) -> int {
        match c { ErrorCode::Invalid => 0, ErrorCode::Timeout => 1, ErrorCode::Cancelled => 2, ErrorCode::Busy => 3, ErrorCode::Declined => 4, ErrorCode::UnexpectedError => 5,
            ErrorCode::BadRequest => 6, ErrorCode::NetworkError => 7, ErrorCode::Unhealthy => 8, ErrorCode::FatalProtocolError => 0xff }
    }
    pub open spec fn error_of(n: int) -> Option<ErrorCode> {
        if n == 0 { Some(ErrorCode::Invalid) } else if n == 1 { Some(ErrorCode::Timeout) } else if n == 2 { Some(ErrorCode::Cancelled) } else if n == 3 { Some(ErrorCode::Busy) }
        else if n == 4 { Some(ErrorCode::Declined) } else if n == 5 { Some(ErrorCode::UnexpectedError) } else if n == 6 { Some(ErrorCode::BadRequest) } else if n == 7 { Some(ErrorCode::NetworkError) }
        else if n == 8 { Some(ErrorCode::Unhealthy) } else if n == 0xff { Some(ErrorCode::FatalProtocolError) } else { None }
    }
    pub open spec fn response_code(c: ResponseCode) -> int { match c { ResponseCode::Ok => 0, ResponseCode::Error => 1 } }
    pub open spec fn response_of(n: int) -> Option<ResponseCode> { if n == 0 { Some(ResponseCode::Ok) } else if n == 1 { Some(ResponseCode::Error) } else { None } }
    pub proof fn lemma_codes(c: ChecksumType, e: ErrorCode, r: ResponseCode)
        ensures checksum_of(checksum_code(c)) == Some(c), 0 <= checksum_code(c) < 256, error_of(error_code(e)) == Some(e), 0 <= error_code(e) < 256,
            response_of(response_code(r)) == Some(r), 0 <= response_code(r) < 256
    { }
    // ---------- length fields of width w (1 or 2 bytes)
    pub open spec fn width<T>() -> nat { vstd::layout::size_of::<T>() }
    pub open spec fn lim(w: nat) -> int { if w == 1 { 256 } else { 65536 } }
    pub open spec fn be(w: nat, n: nat) -> Seq<u8> { if w == 1 { seq![n as u8] } else { be16(n) } }
    pub open spec fn of(w: nat, b: Seq<u8>) -> nat { if w == 1 { b[0] as nat } else { of16(b) } }
    pub proof fn lemma_be(w: nat, n: nat, rest: Seq<u8>)
        requires w == 1 || w == 2, n < lim(w)
        ensures be(w, n).len() == w, of(w, be(w, n) + rest) == n, (be(w, n) + rest).skip(w as int) == rest
    { lemma_be16(n); lemma_of_prefix(be16(n), rest); lemma_skip(be(w, n), rest); }
    #[verifier::prophetic]
    pub open spec fn len_encoder<T: TryFrom<usize>, F: Fn(&mut BytesMut, T)>(f: F) -> bool {
        &&& <T as vstd::std_specs::convert::TryFromSpec<usize>>::obeys_try_from_spec()
        &&& width::<T>() == 1 || width::<T>() == 2
        &&& forall|n: usize| (#[trigger] <T as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(n) is Ok) == (n < lim(width::<T>()))
        &&& forall|d: &mut BytesMut, t: T| #[trigger] call_requires(f, (d, t))
        &&& forall|n: usize, d: &mut BytesMut, t: T| #[trigger] call_ensures(f, (d, t), ()) && #[trigger] <T as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(n) == Ok::<T, <T as TryFrom<usize>>::Error>(t)
            ==> final(d)@ == d@ + be(width::<T>(), n as nat)
    }
    #[verifier::prophetic]
    pub open spec fn len_decoder<T: TryIntoUsize, F: Fn(&mut Bytes) -> T>(f: F) -> bool {
        &&& width::<T>() == 1 || width::<T>() == 2
        &&& forall|d: &mut Bytes| d@.len() >= width::<T>() ==> #[trigger] call_requires(f, (d,))
        &&& forall|d: &mut Bytes, t: T| #[trigger] call_ensures(f, (d,), t) ==> final(d)@ == d@.skip(width::<T>() as int) && t.uv() == of(width::<T>(), d@)
    }
    #[verifier::prophetic]
    pub open spec fn len_decoder_into<T: Into<usize>, F: Fn(&mut Bytes) -> T>(f: F) -> bool {
        &&& <T as vstd::std_specs::convert::IntoSpec<usize>>::obeys_into_spec()
        &&& width::<T>() == 1 || width::<T>() == 2
        &&& forall|d: &mut Bytes| d@.len() >= width::<T>() ==> #[trigger] call_requires(f, (d,))
        &&& forall|d: &mut Bytes, t: T| #[trigger] call_ensures(f, (d,), t) ==> final(d)@ == d@.skip(width::<T>() as int) && vstd::std_specs::convert::IntoSpec::<usize>::into_spec(t) == of(width::<T>(), d@)
    }
    #[verifier::prophetic]
    pub open spec fn str_encoder<F: Fn(String, &mut BytesMut) -> CodecResult<()>>(f: F, w: nat) -> bool {
        &&& forall|s: String, d: &mut BytesMut| #[trigger] call_requires(f, (s, d))
        &&& forall|s: String, d: &mut BytesMut, r: CodecResult<()>| #[trigger] call_ensures(f, (s, d), r) ==> match r {
                Ok(_) => str_fits(w, s@) && final(d)@ == d@ + str_wire(w, s@),
                Err(_) => !str_fits(w, s@),
            }
    }
    #[verifier::prophetic]
    pub open spec fn str_decoder<F: Fn(&mut Bytes) -> CodecResult<String>>(f: F, w: nat) -> bool {
        &&& forall|d: &mut Bytes| #[trigger] call_requires(f, (d,))
        &&& forall|d: &mut Bytes, r: CodecResult<String>| #[trigger] call_ensures(f, (d,), r) ==> match str_parse(w, d@) {
                Some((s, n)) => r is Ok && r->Ok_0@ == s && final(d)@ == d@.skip(n as int),
                None => r is Err,
            }
    }
    /// what was appended to a buffer
    pub open spec fn added(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { b.skip(a.len() as int) }
    pub open spec fn grew(a: Seq<u8>, b: Seq<u8>) -> bool { b == a + added(a, b) }
    // ---------- strings
    pub open spec fn str_fits(w: nat, s: Seq<char>) -> bool { encode_utf8(s).len() < lim(w) }
    #[verifier::opaque]
    pub open spec fn str_wire(w: nat, s: Seq<char>) -> Seq<u8> { be(w, encode_utf8(s).len()) + encode_utf8(s) }
    #[verifier::opaque]
    pub open spec fn str_parse(w: nat, b: Seq<u8>) -> Option<(Seq<char>, nat)> {
        if b.len() < w { None }
        else if b.len() < w + of(w, b) { None }
        else {
            let x = b.skip(w as int).take(of(w, b) as int);
            if valid_utf8(x) { Some((decode_utf8(x), w + of(w, b))) } else { None }
        }
    }
    pub proof fn lemma_str(w: nat, s: Seq<char>, rest: Seq<u8>)
        requires w == 1 || w == 2, str_fits(w, s)
        ensures str_parse(w, str_wire(w, s) + rest) == Some((s, str_wire(w, s).len())), (str_wire(w, s) + rest).skip(str_wire(w, s).len() as int) == rest
    {
        reveal(str_wire); reveal(str_parse);
        let u = encode_utf8(s);
        lemma_be(w, u.len(), u + rest);
        b_add_assoc(be(w, u.len()), u, rest);
        lemma_skip(u, rest); lemma_skip(str_wire(w, s), rest);
        encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s);
    }
    pub proof fn lemma_str_bound(w: nat, b: Seq<u8>)
        ensures str_parse(w, b) is Some ==> w <= (str_parse(w, b)->0).1 <= b.len()
    { reveal(str_parse); }
    // ---------- header lists
    pub type Pairs = Seq<(Seq<char>, Seq<char>)>;
    pub open spec fn strmap(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|s: String| s@) }
    pub open spec fn pairs_wire(w: nat, s: Pairs) -> Seq<u8>
        decreases s.len()
    { if s.len() == 0 { seq![] } else { str_wire(w, s[0].0) + (str_wire(w, s[0].1) + pairs_wire(w, s.skip(1))) } }
    pub open spec fn pairs_fit(w: nat, s: Pairs) -> bool { forall|i: int| 0 <= i < s.len() ==> str_fits(w, (#[trigger] s[i]).0) && str_fits(w, s[i].1) }
    /// `s` lists the entries of `m`, each once
    pub open spec fn pairs_of(m: Map<Seq<char>, Seq<char>>, s: Pairs) -> bool {
        &&& s.len() == m.len()
        &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    }
    pub open spec fn hdr_fits(w: nat, m: Map<Seq<char>, Seq<char>>) -> bool {
        m.len() < lim(w) && forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> str_fits(w, k) && str_fits(w, m[k])
    }
    #[verifier::opaque]
    pub open spec fn hdr_wire(w: nat, m: Map<Seq<char>, Seq<char>>, b: Seq<u8>) -> bool {
        exists|s: Pairs| #[trigger] pairs_of(m, s) && b == be(w, s.len()) + pairs_wire(w, s)
    }
    pub open spec fn pairs_parse(w: nat, b: Seq<u8>, k: nat, acc: Map<Seq<char>, Seq<char>>) -> Option<(Map<Seq<char>, Seq<char>>, nat)>
        decreases k
    {
        if k == 0 { Some((acc, 0)) } else {
            match str_parse(w, b) {
                None => None,
                Some((key, n1)) => match str_parse(w, b.skip(n1 as int)) {
                    None => None,
                    Some((val, n2)) => match pairs_parse(w, b.skip(n1 as int).skip(n2 as int), (k - 1) as nat, acc.insert(key, val)) {
                        None => None,
                        Some((m, n)) => Some((m, n1 + n2 + n)),
                    },
                },
            }
        }
    }
    #[verifier::opaque]
    pub open spec fn hdr_parse(w: nat, b: Seq<u8>) -> Option<(Map<Seq<char>, Seq<char>>, nat)> {
        if b.len() < w { None } else {
            match pairs_parse(w, b.skip(w as int), of(w, b), Map::empty()) { None => None, Some((m, n)) => Some((m, w + n)) }
        }
    }
    pub open spec fn ins(acc: Map<Seq<char>, Seq<char>>, s: Pairs) -> Map<Seq<char>, Seq<char>>
        decreases s.len()
    { if s.len() == 0 { acc } else { ins(acc.insert(s[0].0, s[0].1), s.skip(1)) } }
    pub proof fn lemma_parse_bound(w: nat, b: Seq<u8>, k: nat, acc: Map<Seq<char>, Seq<char>>)
        ensures pairs_parse(w, b, k, acc) is Some ==> (pairs_parse(w, b, k, acc)->0).1 <= b.len()
        decreases k
    {
        if k > 0 && str_parse(w, b) is Some {
            let n1 = (str_parse(w, b)->0).1;
            lemma_str_bound(w, b); lemma_str_bound(w, b.skip(n1 as int));
            if str_parse(w, b.skip(n1 as int)) is Some {
                let n2 = (str_parse(w, b.skip(n1 as int))->0).1;
                lemma_parse_bound(w, b.skip(n1 as int).skip(n2 as int), (k - 1) as nat, acc.insert((str_parse(w, b)->0).0, (str_parse(w, b.skip(n1 as int))->0).0));
            }
        }
    }
    pub proof fn lemma_pairs_wire_push(w: nat, s: Pairs, p: (Seq<char>, Seq<char>))
        ensures pairs_wire(w, s.push(p)) == pairs_wire(w, s) + (str_wire(w, p.0) + str_wire(w, p.1))
        decreases s.len()
    {
        broadcast use group_bytes;
        if s.len() == 0 { assert(s.push(p).skip(1) =~= seq![]); assert(pairs_wire(w, s.push(p).skip(1)) =~= seq![]); }
        else { assert(s.push(p).skip(1) =~= s.skip(1).push(p)); lemma_pairs_wire_push(w, s.skip(1), p); }
    }
    pub proof fn lemma_pairs(w: nat, s: Pairs, rest: Seq<u8>, acc: Map<Seq<char>, Seq<char>>)
        requires w == 1 || w == 2, pairs_fit(w, s)
        ensures pairs_parse(w, pairs_wire(w, s) + rest, s.len(), acc) == Some((ins(acc, s), pairs_wire(w, s).len()))
        decreases s.len()
    {
        if s.len() > 0 {
            let t = pairs_wire(w, s.skip(1)) + rest;
            b_add_assoc(str_wire(w, s[0].0), str_wire(w, s[0].1) + pairs_wire(w, s.skip(1)), rest);
            b_add_assoc(str_wire(w, s[0].1), pairs_wire(w, s.skip(1)), rest);
            lemma_str(w, s[0].0, str_wire(w, s[0].1) + t);
            lemma_str(w, s[0].1, t);
            assert(pairs_fit(w, s.skip(1)));
            lemma_pairs(w, s.skip(1), rest, acc.insert(s[0].0, s[0].1));
            assert(pairs_wire(w, s) + rest == str_wire(w, s[0].0) + (str_wire(w, s[0].1) + t));
        }
    }
    pub proof fn lemma_ins(acc: Map<Seq<char>, Seq<char>>, s: Pairs)
        requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0,
            forall|i: int| 0 <= i < s.len() ==> !acc.contains_key((#[trigger] s[i]).0)
        ensures
            forall|k: Seq<char>| #[trigger] ins(acc, s).contains_key(k) <==> acc.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
            forall|k: Seq<char>| acc.contains_key(k) ==> #[trigger] ins(acc, s)[k] == acc[k],
            forall|i: int| 0 <= i < s.len() ==> ins(acc, s)[(#[trigger] s[i]).0] == s[i].1,
            ins(acc, s).len() == acc.len() + s.len(),
        decreases s.len()
    {
        if s.len() > 0 {
            let a2 = acc.insert(s[0].0, s[0].1);
            let t = s.skip(1);
            assert forall|i: int| 0 <= i < t.len() implies !a2.contains_key((#[trigger] t[i]).0) by { assert(t[i] == s[i + 1]); }
            lemma_ins(a2, t);
            assert forall|k: Seq<char>| #[trigger] ins(acc, s).contains_key(k) implies acc.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
                if !a2.contains_key(k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(s[i + 1].0 == k); }
                else if !acc.contains_key(k) { assert(s[0].0 == k); }
            }
            assert forall|k: Seq<char>| (acc.contains_key(k) || exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k) implies #[trigger] ins(acc, s).contains_key(k) by {
                if !a2.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(i > 0); assert(t[i - 1].0 == k); }
            }
            assert forall|i: int| 0 <= i < s.len() implies ins(acc, s)[(#[trigger] s[i]).0] == s[i].1 by {
                if i > 0 { assert(t[i - 1] == s[i]); } else { assert(a2.contains_key(s[0].0)); }
            }
        }
    }
    /// inserting the listed entries into an empty map gives the map
    pub proof fn lemma_ins_all(m: Map<Seq<char>, Seq<char>>, s: Pairs)
        requires pairs_of(m, s)
        ensures ins(Map::empty(), s) == m
    {
        lemma_ins(Map::empty(), s);
        let i = ins(Map::<Seq<char>, Seq<char>>::empty(), s);
        assert(i.dom().subset_of(m.dom()));
        vstd::set_lib::lemma_subset_equality(i.dom(), m.dom());
        assert(i =~= m);
    }
    pub proof fn lemma_pairs_remove(w: nat, s: Pairs, j: int)
        requires 0 <= j < s.len()
        ensures pairs_wire(w, s).len() == str_wire(w, s[j].0).len() + str_wire(w, s[j].1).len() + pairs_wire(w, s.remove(j)).len()
        decreases s.len()
    {
        if j == 0 { assert(s.remove(0) =~= s.skip(1)); }
        else { lemma_pairs_remove(w, s.skip(1), j - 1); assert(s.remove(j).skip(1) =~= s.skip(1).remove(j - 1)); assert(s.remove(j)[0] == s[0]); assert(s.skip(1)[j - 1] == s[j]); }
    }
    /// the order of the headers does not change the length of their encoding
    pub proof fn lemma_pairs_len(w: nat, m: Map<Seq<char>, Seq<char>>, s: Pairs, t: Pairs)
        requires pairs_of(m, s), pairs_of(m, t)
        ensures pairs_wire(w, s).len() == pairs_wire(w, t).len()
        decreases s.len()
    {
        if s.len() > 0 {
            let k = s[0].0;
            lemma_listed(m, t, k);
            let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k && t[j].1 == m[k];
            lemma_pairs_remove(w, t, j);
            let m2 = m.remove(k); let s2 = s.skip(1); let t2 = t.remove(j);
            assert forall|i: int| 0 <= i < s2.len() implies m2.contains_key((#[trigger] s2[i]).0) && m2[s2[i].0] == s2[i].1 by { assert(s2[i] == s[i + 1]); assert(s[0].0 != s[i + 1].0); }
            assert forall|i: int, h: int| 0 <= i < h < s2.len() implies (#[trigger] s2[i]).0 != (#[trigger] s2[h]).0 by { assert(s2[i] == s[i + 1] && s2[h] == s[h + 1]); }
            assert forall|i: int| 0 <= i < t2.len() implies m2.contains_key((#[trigger] t2[i]).0) && m2[t2[i].0] == t2[i].1 by {
                if i < j { assert(t2[i] == t[i]); assert(t[i].0 != t[j].0); } else { assert(t2[i] == t[i + 1]); assert(t[j].0 != t[i + 1].0); }
            }
            assert forall|i: int, h: int| 0 <= i < h < t2.len() implies (#[trigger] t2[i]).0 != (#[trigger] t2[h]).0 by {
                let i2 = if i < j { i } else { i + 1 }; let h2 = if h < j { h } else { h + 1 };
                assert(t2[i] == t[i2] && t2[h] == t[h2]); assert(t[i2].0 != t[h2].0);
            }
            lemma_pairs_len(w, m2, s2, t2);
            assert(t[j] == s[0]);
        }
    }
    pub proof fn lemma_hdr_len(w: nat, m: Map<Seq<char>, Seq<char>>, a: Seq<u8>, b: Seq<u8>)
        requires hdr_wire(w, m, a), hdr_wire(w, m, b)
        ensures a.len() == b.len()
    {
        reveal(hdr_wire);
        let s = choose|s: Pairs| #[trigger] pairs_of(m, s) && a == be(w, s.len()) + pairs_wire(w, s);
        let t = choose|s: Pairs| #[trigger] pairs_of(m, s) && b == be(w, s.len()) + pairs_wire(w, s);
        lemma_pairs_len(w, m, s, t);
    }
    /// a header list reads back as the same headers
    pub proof fn lemma_hdr(w: nat, m: Map<Seq<char>, Seq<char>>, b: Seq<u8>, rest: Seq<u8>)
        requires w == 1 || w == 2, hdr_fits(w, m), hdr_wire(w, m, b)
        ensures hdr_parse(w, b + rest) == Some((m, b.len()))
    {
        reveal(hdr_wire); reveal(hdr_parse);
        let s = choose|s: Pairs| #[trigger] pairs_of(m, s) && b == be(w, s.len()) + pairs_wire(w, s);
        lemma_be(w, s.len(), pairs_wire(w, s) + rest);
        assert(pairs_fit(w, s));
        b_add_assoc(be(w, s.len()), pairs_wire(w, s), rest);
        lemma_pairs(w, s, rest, Map::empty());
        lemma_ins_all(m, s);
    }
    // ---------- arguments
    pub open spec fn argv(a: Option<Bytes>) -> Seq<u8> { match a { Some(b) => b@, None => seq![] } }
    pub open spec fn argsv(a: Seq<Option<Bytes>>) -> Seq<Seq<u8>> { a.map_values(|x: Option<Bytes>| argv(x)) }
    #[verifier::opaque]
    pub open spec fn args_wire(a: Seq<Seq<u8>>) -> Seq<u8>
        decreases a.len()
    { if a.len() == 0 { seq![] } else { (be16(a[0].len()) + a[0]) + args_wire(a.skip(1)) } }
    pub open spec fn args_size(a: Seq<Seq<u8>>) -> nat
        decreases a.len()
    { if a.len() == 0 { 0 } else { 2 + a[0].len() + args_size(a.skip(1)) } }
    pub open spec fn args_fit(a: Seq<Seq<u8>>, n: nat) -> bool { 1 <= a.len() <= 3 && n + args_size(a) <= 65518 }
    pub open spec fn args_parse(b: Seq<u8>, k: nat) -> Option<Seq<Seq<u8>>>
        decreases k
    {
        if b.len() == 0 { Some(seq![]) }
        else if k == 0 { None }
        else if b.len() < 2 { None }
        else if of16(b) > b.len() - 2 { None }
        else { match args_parse(b.skip(2 + of16(b) as int), (k - 1) as nat) { None => None, Some(r) => Some(seq![b.skip(2).take(of16(b) as int)] + r) } }
    }
    pub proof fn lemma_args_push(a: Seq<Seq<u8>>, x: Seq<u8>)
        ensures args_wire(a.push(x)) == args_wire(a) + (be16(x.len()) + x), args_size(a.push(x)) == args_size(a) + 2 + x.len(),
        decreases a.len()
    {
        broadcast use group_bytes; reveal_with_fuel(args_wire, 2);
        if a.len() == 0 { assert(a.push(x).skip(1) =~= seq![]); assert(args_wire(a.push(x).skip(1)) =~= seq![]); assert(args_size(a.push(x).skip(1)) == 0); }
        else { assert(a.push(x).skip(1) =~= a.skip(1).push(x)); lemma_args_push(a.skip(1), x); }
    }
    pub proof fn lemma_args_len(a: Seq<Seq<u8>>)
        ensures args_wire(a).len() == args_size(a), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() + 2 <= args_size(a)
        decreases a.len()
    { reveal_with_fuel(args_wire, 2); if a.len() > 0 { lemma_args_len(a.skip(1)); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() + 2 <= args_size(a) by { if i > 0 { assert(a[i] == a.skip(1)[i - 1]); } } } }
    /// an argument list reads back as the same chunks
    pub proof fn lemma_args(a: Seq<Seq<u8>>, k: nat)
        requires a.len() <= k, args_size(a) <= 65535
        ensures args_parse(args_wire(a), k) == Some(a)
        decreases a.len()
    {
        reveal_with_fuel(args_wire, 2);
        if a.len() > 0 {
            lemma_args_len(a); assert(a[0].len() + 2 <= args_size(a));
            let t = args_wire(a.skip(1));
            lemma_be16(a[0].len()); lemma_of_prefix(be16(a[0].len()), a[0] + t);
            lemma_args(a.skip(1), (k - 1) as nat);
            let b = args_wire(a); let n = a[0].len() as int;
            b_add_assoc(be16(a[0].len()), a[0], t);
            lemma_skip(be16(a[0].len()), a[0] + t); lemma_skip(a[0], t);
            b_skip_skip(b, 2, n);
            assert(of16(b) == n);
            assert(seq![a[0]] + a.skip(1) =~= a);
        } else { assert(a =~= seq![]); }
    }
    // ---------- views of the messages, their layouts and what their bytes mean
    pub struct ArgsV { pub ct: ChecksumType, pub cs: Option<u32>, pub args: Seq<Seq<u8>> }
    pub struct InitV { pub version: u16, pub headers: Map<Seq<char>, Seq<char>> }
    pub struct ReqFieldsV { pub ttl: u32, pub tracing: Tracing, pub service: Seq<char>, pub headers: Map<Seq<char>, Seq<char>> }
    pub struct ResFieldsV { pub code: ResponseCode, pub tracing: Tracing, pub headers: Map<Seq<char>, Seq<char>> }
    pub struct ReqV { pub flags: Flags, pub fields: ReqFieldsV, pub args: ArgsV }
    pub struct ResV { pub flags: Flags, pub fields: ResFieldsV, pub args: ArgsV }
    pub struct ContV { pub flags: Flags, pub args: ArgsV }
    pub struct EncV { pub flags: Flags, pub fields: Seq<u8>, pub args: ArgsV }
    pub struct CancelV { pub ttl: u32, pub tracing: Tracing, pub why: Seq<char> }
    pub struct ErrorV { pub code: ErrorCode, pub tracing: Tracing, pub message: Seq<char> }
    pub open spec fn cargsv(a: CallArgs) -> ArgsV { ArgsV { ct: a.checksum_type, cs: if a.checksum_type == ChecksumType::None { None } else { a.checksum }, args: argsv(a.args@) } }
    pub open spec fn initv(i: Init) -> InitV { InitV { version: i.version, headers: strmap(i.headers@) } }
    pub open spec fn reqfv(f: CallRequestFields) -> ReqFieldsV { ReqFieldsV { ttl: f.ttl, tracing: f.tracing, service: f.service@, headers: strmap(f.headers@) } }
    pub open spec fn resfv(f: CallResponseFields) -> ResFieldsV { ResFieldsV { code: f.code, tracing: f.tracing, headers: strmap(f.headers@) } }

    pub open spec fn tracing_ok(t: Tracing) -> bool { t.trace_flags.bits <= 1 }
    pub open spec fn flags_ok(f: Flags) -> bool { f.bits <= 3 }
    #[verifier::opaque]
    pub open spec fn tracing_wire(t: Tracing) -> Seq<u8> { be64(t.span_id as nat) + (be64(t.parent_id as nat) + (be64(t.trace_id as nat) + seq![t.trace_flags.bits])) }
    #[verifier::opaque]
    pub open spec fn tracing_parse(b: Seq<u8>) -> Option<(Tracing, nat)> {
        if b.len() < 25 { None } else if b[24] > 1 { None }
        else { Some((Tracing { span_id: of64(b) as u64, parent_id: of64(b.skip(8)) as u64, trace_id: of64(b.skip(16)) as u64, trace_flags: TraceFlags { bits: b[24] } }, 25)) }
    }
    pub open spec fn init_wire(v: InitV, b: Seq<u8>) -> bool { exists|h: Seq<u8>| #[trigger] hdr_wire(2, v.headers, h) && b == be16(v.version as nat) + h }
    pub open spec fn init_parse(b: Seq<u8>) -> Option<(InitV, nat)> {
        if b.len() < 2 { None } else { match hdr_parse(2, b.skip(2)) { None => None, Some((m, n)) => Some((InitV { version: of16(b) as u16, headers: m }, 2 + n)) } }
    }
    #[verifier::opaque]
    pub open spec fn sum_wire(ct: ChecksumType, cs: Option<u32>) -> Seq<u8> { if ct == ChecksumType::None { seq![0u8] } else { seq![checksum_code(ct) as u8] + be32(cs->0 as nat) } }
    pub open spec fn cargs_fit(v: ArgsV, n: nat) -> bool { (v.ct != ChecksumType::None ==> v.cs is Some) && args_fit(v.args, n + sum_wire(v.ct, v.cs).len()) }
    #[verifier::opaque]
    pub open spec fn cargs_wire(v: ArgsV) -> Seq<u8> { sum_wire(v.ct, v.cs) + args_wire(v.args) }
    #[verifier::opaque]
    pub open spec fn sum_parse(b: Seq<u8>) -> Option<(ChecksumType, Option<u32>, nat)> {
        if b.len() < 1 { None } else { match checksum_of(b[0] as int) {
            None => None,
            Some(ChecksumType::None) => Some((ChecksumType::None, None, 1)),
            Some(c) => if b.len() < 5 { None } else { Some((c, Some(of32(b.skip(1)) as u32), 5)) },
        } }
    }
    #[verifier::opaque]
    pub open spec fn cargs_parse(b: Seq<u8>) -> Option<(ArgsV, nat)> {
        match sum_parse(b) {
            None => None,
            Some((ct, cs, n)) => if b.len() == n { None } else { match args_parse(b.skip(n as int), 3) { None => None, Some(a) => Some((ArgsV { ct, cs, args: a }, b.len())) } },
        }
    }
    pub broadcast proof fn b_tracing_len(b: Seq<u8>)
        ensures (#[trigger] tracing_parse(b)) is Some ==> (tracing_parse(b)->0).1 == 25 && b.len() >= 25
    { reveal(tracing_parse); }
    pub broadcast proof fn b_str_len(w: nat, b: Seq<u8>)
        ensures (#[trigger] str_parse(w, b)) is Some ==> w <= (str_parse(w, b)->0).1 <= b.len()
    { reveal(str_parse); }
    pub broadcast proof fn b_hdr_len(w: nat, b: Seq<u8>)
        ensures (#[trigger] hdr_parse(w, b)) is Some ==> w <= (hdr_parse(w, b)->0).1 <= b.len()
    { reveal(hdr_parse); if b.len() >= w { lemma_parse_bound(w, b.skip(w as int), of(w, b), Map::empty()); } }
    pub broadcast proof fn b_sum_len(b: Seq<u8>)
        ensures (#[trigger] sum_parse(b)) is Some ==> 1 <= (sum_parse(b)->0).2 <= b.len() && ((sum_parse(b)->0).0 == ChecksumType::None ==> (sum_parse(b)->0).1 is None)
    { reveal(sum_parse); }
    pub broadcast proof fn b_cargs_len(b: Seq<u8>)
        ensures (#[trigger] cargs_parse(b)) is Some ==> (cargs_parse(b)->0).1 == b.len()
    { reveal(cargs_parse); }
    pub broadcast proof fn b_grew(a: Seq<u8>, x: Seq<u8>, c: Seq<u8>)
        requires #[trigger] grew(a + x, c)
        ensures grew(a, c), added(a, c) == x + added(a + x, c)
    { broadcast use group_bytes; }
    pub broadcast group group_parse { b_grew, b_tracing_len, b_str_len, b_hdr_len, b_sum_len, b_cargs_len }
    /// strings and headers that were read fit their fields when written again
    pub proof fn lemma_str_refit(w: nat, b: Seq<u8>)
        requires w == 1 || w == 2
        ensures str_parse(w, b) is Some ==> str_fits(w, (str_parse(w, b)->0).0)
    {
        reveal(str_parse);
        if str_parse(w, b) is Some { lemma_of_range(b); decode_utf8_encode_utf8(b.skip(w as int).take(of(w, b) as int)); }
    }
    pub open spec fn entries_fit(w: nat, m: Map<Seq<char>, Seq<char>>) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> str_fits(w, k) && str_fits(w, m[k]) }
    pub proof fn lemma_pairs_refit(w: nat, b: Seq<u8>, k: nat, acc: Map<Seq<char>, Seq<char>>)
        requires w == 1 || w == 2, entries_fit(w, acc)
        ensures pairs_parse(w, b, k, acc) is Some ==> entries_fit(w, (pairs_parse(w, b, k, acc)->0).0) && (pairs_parse(w, b, k, acc)->0).0.len() <= acc.len() + k
        decreases k
    {
        if k > 0 && str_parse(w, b) is Some {
            let (key, n1) = str_parse(w, b)->0;
            lemma_str_refit(w, b); lemma_str_refit(w, b.skip(n1 as int));
            if str_parse(w, b.skip(n1 as int)) is Some {
                let (val, n2) = str_parse(w, b.skip(n1 as int))->0;
                lemma_pairs_refit(w, b.skip(n1 as int).skip(n2 as int), (k - 1) as nat, acc.insert(key, val));
            }
        }
    }
    pub proof fn lemma_hdr_refit(w: nat, b: Seq<u8>)
        requires w == 1 || w == 2
        ensures hdr_parse(w, b) is Some ==> hdr_fits(w, (hdr_parse(w, b)->0).0)
    { reveal(hdr_parse); if b.len() >= w { lemma_of_range(b); lemma_pairs_refit(w, b.skip(w as int), of(w, b), Map::empty()); } }
    pub open spec fn reqf_fits(v: ReqFieldsV) -> bool { str_fits(1, v.service) && hdr_fits(1, v.headers) }
    #[verifier::opaque]
    pub open spec fn reqf_wire(v: ReqFieldsV, b: Seq<u8>) -> bool {
        exists|h: Seq<u8>| #[trigger] hdr_wire(1, v.headers, h) && b == be32(v.ttl as nat) + (tracing_wire(v.tracing) + (str_wire(1, v.service) + h))
    }
    #[verifier::opaque]
    pub open spec fn reqf_parse(b: Seq<u8>) -> Option<(ReqFieldsV, nat)> {
        if b.len() < 4 { None } else { match tracing_parse(b.skip(4)) {
            None => None,
            Some((t, _)) => match str_parse(1, b.skip(29)) {
                None => None,
                Some((s, n)) => match hdr_parse(1, b.skip(29 + n as int)) { None => None, Some((h, m)) => Some((ReqFieldsV { ttl: of32(b) as u32, tracing: t, service: s, headers: h }, 29 + n + m)) },
            },
        } }
    }
    pub open spec fn resf_fits(v: ResFieldsV) -> bool { hdr_fits(1, v.headers) }
    #[verifier::opaque]
    pub open spec fn resf_wire(v: ResFieldsV, b: Seq<u8>) -> bool {
        exists|h: Seq<u8>| #[trigger] hdr_wire(1, v.headers, h) && b == seq![response_code(v.code) as u8] + (tracing_wire(v.tracing) + h)
    }
    #[verifier::opaque]
    pub open spec fn resf_parse(b: Seq<u8>) -> Option<(ResFieldsV, nat)> {
        if b.len() < 1 { None } else { match response_of(b[0] as int) {
            None => None,
            Some(code) => match tracing_parse(b.skip(1)) {
                None => None,
                Some((t, _)) => match hdr_parse(1, b.skip(26)) { None => None, Some((h, m)) => Some((ResFieldsV { code, tracing: t, headers: h }, 26 + m)) },
            },
        } }
    }
    pub open spec fn req_fits(v: ReqV, n: nat) -> bool { exists|f: Seq<u8>| #[trigger] reqf_wire(v.fields, f) && reqf_fits(v.fields) && cargs_fit(v.args, n + 1 + f.len()) }
    pub open spec fn req_wire(v: ReqV, b: Seq<u8>) -> bool { exists|f: Seq<u8>| #[trigger] reqf_wire(v.fields, f) && b == seq![v.flags.bits] + (f + cargs_wire(v.args)) }
    pub open spec fn req_parse(b: Seq<u8>) -> Option<(ReqV, nat)> {
        if b.len() < 1 { None } else if b[0] > 3 { None } else { match reqf_parse(b.skip(1)) {
            None => None,
            Some((f, n)) => match cargs_parse(b.skip(1 + n as int)) { None => None, Some((a, _)) => Some((ReqV { flags: Flags { bits: b[0] }, fields: f, args: a }, b.len())) },
        } }
    }
    pub open spec fn res_wire(v: ResV, b: Seq<u8>) -> bool { exists|f: Seq<u8>| #[trigger] resf_wire(v.fields, f) && b == seq![v.flags.bits] + (f + cargs_wire(v.args)) }
    pub open spec fn res_parse(b: Seq<u8>) -> Option<(ResV, nat)> {
        if b.len() < 1 { None } else if b[0] > 3 { None } else { match resf_parse(b.skip(1)) {
            None => None,
            Some((f, n)) => match cargs_parse(b.skip(1 + n as int)) { None => None, Some((a, _)) => Some((ResV { flags: Flags { bits: b[0] }, fields: f, args: a }, b.len())) },
        } }
    }
    pub open spec fn enc_wire(v: EncV) -> Seq<u8> { seq![v.flags.bits] + (v.fields + cargs_wire(v.args)) }
    pub open spec fn cont_wire(v: ContV) -> Seq<u8> { seq![v.flags.bits] + cargs_wire(v.args) }
    pub open spec fn cont_parse(b: Seq<u8>) -> Option<(ContV, nat)> {
        if b.len() < 1 { None } else if b[0] > 3 { None } else { match cargs_parse(b.skip(1)) { None => None, Some((a, _)) => Some((ContV { flags: Flags { bits: b[0] }, args: a }, b.len())) } }
    }
    pub open spec fn cancel_wire(v: CancelV) -> Seq<u8> { be32(v.ttl as nat) + (tracing_wire(v.tracing) + str_wire(2, v.why)) }
    pub open spec fn cancel_parse(b: Seq<u8>) -> Option<(CancelV, nat)> {
        if b.len() < 4 { None } else { match tracing_parse(b.skip(4)) { None => None, Some((t, _)) => match str_parse(2, b.skip(29)) { None => None, Some((s, n)) => Some((CancelV { ttl: of32(b) as u32, tracing: t, why: s }, 29 + n)) } } }
    }
    pub open spec fn claim_wire(ttl: u32, t: Tracing) -> Seq<u8> { be32(ttl as nat) + tracing_wire(t) }
    pub open spec fn claim_parse(b: Seq<u8>) -> Option<((u32, Tracing), nat)> {
        if b.len() < 4 { None } else { match tracing_parse(b.skip(4)) { None => None, Some((t, _)) => Some(((of32(b) as u32, t), 29)) } }
    }
    pub open spec fn error_wire(v: ErrorV) -> Seq<u8> { seq![error_code(v.code) as u8] + (tracing_wire(v.tracing) + str_wire(2, v.message)) }
    pub open spec fn error_parse(b: Seq<u8>) -> Option<(ErrorV, nat)> {
        if b.len() < 1 { None } else { match error_of(b[0] as int) {
            None => None,
            Some(code) => match tracing_parse(b.skip(1)) { None => None, Some((t, _)) => match str_parse(2, b.skip(26)) { None => None, Some((s, n)) => Some((ErrorV { code, tracing: t, message: s }, 26 + n)) } },
        } }
    }
@@ impl frames::payloads::Codec
        type V;
        type P;
        spec fn cv(self) -> Self::V;
        /// `b` is the encoding of `v`
        spec fn wire(v: Self::V, b: Seq<u8>) -> bool;
        /// `v` can be encoded behind `n` bytes
        spec fn fits(v: Self::V, n: nat) -> bool;
        /// meaning of the bytes at the head of a payload and their number
        spec fn parse(b: Seq<u8>) -> Option<(Self::P, nat)>;
        spec fn reads(self, p: Self::P) -> bool;
@@ fn frames::payloads::Codec::encode :: props=C03,C04,C05,C06,C07,C09
@ spec
    ensures
        match r {
            Ok(_) => Self::fits(self.cv(), old(dst)@.len()) && grew(old(dst)@, final(dst)@) && Self::wire(self.cv(), added(old(dst)@, final(dst)@)),
            Err(_) => !Self::fits(self.cv(), old(dst)@.len()),
        },
@@ fn frames::payloads::Codec::decode :: props=C03,C05,C06,C08,C09
@ spec
    requires old(src)@.len() <= 65535
    ensures
        match Self::parse(old(src)@) {
            Some((p, n)) => r is Ok && r->Ok_0.reads(p) && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int),
            None => r is Err,
        },
@@ fn frames::payloads::Codec::encode_bytes :: props=C04,C05,C06,C07,C09
@ spec
    ensures
        match r {
            Ok(b) => Self::fits(self.cv(), 0) && Self::wire(self.cv(), b@),
            Err(_) => !Self::fits(self.cv(), 0),
        },
@@ fn frames::payloads::check_remaining :: props=C03,C05,C06,C08
@ spec
    ensures r is Ok <==> src@.len() >= len,
@@ fn frames::payloads::decode_bitflag :: props=C03,C05,C06,C08
@ spec
    requires call_requires(decoder, (byte,))
    ensures match r { Ok(t) => call_ensures(decoder, (byte,), Some(t)), Err(_) => call_ensures(decoder, (byte,), None) },
@@ fn frames::payloads::encode_len :: props=C04,C05,C07
@ spec
    requires len_encoder::<T, _>(*encode_len_fn)
    ensures match r {
        Ok(_) => value < lim(width::<T>()) && final(dst)@ == old(dst)@ + be(width::<T>(), value as nat),
        Err(_) => value >= lim(width::<T>()) && final(dst)@ == old(dst)@,
    },
@@ fn frames::payloads::decode_len :: props=C03,C05
@ spec
    requires len_decoder::<T, _>(*decode_len_fn)
    ensures match r {
        Ok(n) => old(src)@.len() >= width::<T>() && n == of(width::<T>(), old(src)@) && final(src)@ == old(src)@.skip(width::<T>() as int),
        Err(_) => old(src)@.len() < width::<T>(),
    },
@@ fn frames::payloads::encode_string_field :: props=C04,C05,C07,C09
@ spec
    requires len_encoder::<T, _>(*encode_len_fn)
    ensures match r {
        Ok(_) => str_fits(width::<T>(), value.sv()) && final(dst)@ == old(dst)@ + str_wire(width::<T>(), value.sv()),
        Err(_) => !str_fits(width::<T>(), value.sv()),
    },
@ hint start
    reveal(str_wire);
@@ fn frames::payloads::encode_string :: props=C04,C05,C07,C09
@ spec
    ensures match r {
        Ok(_) => str_fits(2, value.sv()) && final(dst)@ == old(dst)@ + str_wire(2, value.sv()),
        Err(_) => !str_fits(2, value.sv()),
    },
@ hint start
    broadcast use vstd::layout::layout_of_primitives;
@@ fn frames::payloads::encode_small_string :: props=C04,C05,C07,C09,C15
@ spec
    ensures match r {
        Ok(_) => str_fits(1, value.sv()) && final(dst)@ == old(dst)@ + str_wire(1, value.sv()),
        Err(_) => !str_fits(1, value.sv()),
    },
@ hint start
    broadcast use vstd::layout::layout_of_primitives;
@@ fn frames::payloads::decode_string_field :: props=C03,C05,C09
@ spec
    requires len_decoder_into::<T, _>(*get_len)
    ensures match str_parse(width::<T>(), old(src)@) {
        Some((s, n)) => r is Ok && r->Ok_0@ == s && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int),
        None => r is Err,
    },
@ hint start
    reveal(str_parse);
@@ fn frames::payloads::decode_string :: props=C03,C05,C09
@ spec
    ensures match str_parse(2, old(src)@) { Some((s, n)) => r is Ok && r->Ok_0@ == s && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int), None => r is Err },
@ hint start
    broadcast use vstd::layout::layout_of_primitives;
@@ fn frames::payloads::decode_small_string :: props=C03,C05,C09,C15
@ spec
    ensures match str_parse(1, old(src)@) { Some((s, n)) => r is Ok && r->Ok_0@ == s && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int), None => r is Err },
@ hint start
    broadcast use vstd::layout::layout_of_primitives;
@@ fn frames::payloads::encode_header_fields :: props=C04,C05,C07,C09,C14
@ spec
    requires len_encoder::<T, _>(*encode_len_fn), str_encoder(*encode_string, width::<T>())
    ensures match r {
        Ok(_) => hdr_fits(width::<T>(), strmap(headers@)) && grew(old(dst)@, final(dst)@) && hdr_wire(width::<T>(), strmap(headers@), added(old(dst)@, final(dst)@)),
        Err(_) => !hdr_fits(width::<T>(), strmap(headers@)),
    },
@ hint start
    reveal(hdr_wire);
@ hint preloop 0
    let ghost vp_all = vp_it0@; let ghost vp_d = dst@; let ghost mut vp_i: int = 0; let ghost w = width::<T>();
    let ghost vp_pairs: Pairs = vp_all.map_values(|p: (String, String)| (p.0@, p.1@));
    proof {
        let m = strmap(headers@);
        assert(m.dom() =~= headers@.dom());
        assert(pairs_of(m, vp_pairs)) by {
            assert forall|i: int| 0 <= i < vp_pairs.len() implies m.contains_key((#[trigger] vp_pairs[i]).0) && m[vp_pairs[i].0] == vp_pairs[i].1 by { assert(headers@.contains_key(vp_all[i].0.kv())); }
            assert forall|i: int, j: int| 0 <= i < j < vp_pairs.len() implies (#[trigger] vp_pairs[i]).0 != (#[trigger] vp_pairs[j]).0 by { assert(vp_all[i].0.kv() != vp_all[j].0.kv()); }
        }
        assert(vp_pairs.take(0) =~= seq![]); assert(pairs_wire(w, vp_pairs.take(0)) =~= seq![]);
        assert(pairs_fit(w, vp_pairs.take(0)));
    }
@ loop 0
    invariant w == width::<T>(), w == 1 || w == 2, str_encoder(*encode_string, w), 0 <= vp_i <= vp_all.len(), vp_it0@ == vp_all.skip(vp_i),
        vp_pairs == vp_all.map_values(|p: (String, String)| (p.0@, p.1@)), pairs_of(strmap(headers@), vp_pairs),
        dst@ == vp_d + pairs_wire(w, vp_pairs.take(vp_i)), pairs_fit(w, vp_pairs.take(vp_i)),
    ensures vp_i == vp_all.len(),
    decreases vp_all.len() - vp_i
@ hint loopstart 0
    proof { if vp_i < vp_all.len() {
        let m = strmap(headers@);
        assert(vp_pairs[vp_i] == (vp_all[vp_i].0@, vp_all[vp_i].1@)); assert(m.contains_key(vp_pairs[vp_i].0) && m[vp_pairs[vp_i].0] == vp_pairs[vp_i].1);
        lemma_pairs_wire_push(w, vp_pairs.take(vp_i), vp_pairs[vp_i]); assert(vp_pairs.take(vp_i).push(vp_pairs[vp_i]) =~= vp_pairs.take(vp_i + 1));
    } }
@ hint loopend 0
    proof {
        assert forall|i: int| 0 <= i < vp_i + 1 implies str_fits(w, (#[trigger] vp_pairs.take(vp_i + 1)[i]).0) && str_fits(w, vp_pairs.take(vp_i + 1)[i].1) by { if i < vp_i { assert(vp_pairs.take(vp_i)[i] == vp_pairs[i]); } }
        vp_i = vp_i + 1;
    }
@ hint postloop 0
    proof {
        let m = strmap(headers@);
        assert(vp_pairs.take(vp_i) =~= vp_pairs);
        assert(hdr_wire(w, m, be(w, vp_pairs.len()) + pairs_wire(w, vp_pairs)));
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies str_fits(w, k) && str_fits(w, m[k]) by { lemma_listed(m, vp_pairs, k); }
    }
@@ module spec
    pub proof fn lemma_listed(m: Map<Seq<char>, Seq<char>>, s: Pairs, k: Seq<char>)
        requires pairs_of(m, s), m.contains_key(k)
        ensures exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && s[i].1 == m[k]
    {
        lemma_ins_all(m, s); lemma_ins(Map::empty(), s);
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(s[i].1 == m[k]);
    }
@@ fn frames::payloads::encode_headers :: props=C04,C05,C07,C09,C14
@ spec
    ensures match r {
        Ok(_) => hdr_fits(2, strmap(headers@)) && grew(old(dst)@, final(dst)@) && hdr_wire(2, strmap(headers@), added(old(dst)@, final(dst)@)),
        Err(_) => !hdr_fits(2, strmap(headers@)),
    },
@ hint start
    broadcast use vstd::layout::layout_of_primitives;
@@ fn frames::payloads::encode_small_headers :: props=C04,C05,C07,C09
@ spec
    ensures match r {
        Ok(_) => hdr_fits(1, strmap(headers@)) && grew(old(dst)@, final(dst)@) && hdr_wire(1, strmap(headers@), added(old(dst)@, final(dst)@)),
        Err(_) => !hdr_fits(1, strmap(headers@)),
    },
@ hint start
    broadcast use vstd::layout::layout_of_primitives;
@@ fn frames::payloads::decode_headers_field :: props=C03,C05,C09,C14
@ attrs
    #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@ spec
    requires len_decoder::<T, _>(*decode_len_fn), str_decoder(*decode_string_fn, width::<T>())
    ensures match hdr_parse(width::<T>(), old(src)@) {
        Some((m, n)) => r is Ok && strmap(r->Ok_0@) == m && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int),
        None => r is Err,
    },
@ hint start
    reveal(hdr_parse);
@ hint preloop 0
    let ghost w = width::<T>(); let ghost vp_b = src@; let ghost mut vp_n: nat = 0;
    proof { assert(strmap(headers@) =~= Map::empty()); }
@ loop 0
    invariant w == width::<T>(), w == 1 || w == 2, str_decoder(*decode_string_fn, w), vp_it0.end == len, 0 <= vp_it0.cur <= len,
        old(src)@.len() >= w, len == of(w, old(src)@), vp_b == old(src)@.skip(w as int), vp_n <= vp_b.len(), src@ == vp_b.skip(vp_n as int),
        match pairs_parse(w, src@, (len - vp_it0.cur) as nat, strmap(headers@)) {
            Some((m, n)) => pairs_parse(w, vp_b, len as nat, Map::empty()) == Some((m, vp_n + n)),
            None => pairs_parse(w, vp_b, len as nat, Map::empty()) is None,
        },
    ensures vp_it0.cur == len,
    decreases len - vp_it0.cur
@ hint loopstart 0
    reveal(hdr_parse);
    let ghost vp_s = src@; let ghost vp_h = headers@;
    proof { lemma_str_bound(w, src@); if str_parse(w, src@) is Some { lemma_str_bound(w, src@.skip((str_parse(w, src@)->0).1 as int)); } }
@ hint loopend 0
    proof {
        let n1 = (str_parse(w, vp_s)->0).1; let n2 = (str_parse(w, vp_s.skip(n1 as int))->0).1;
        vp_n = vp_n + n1 + n2;
        assert(strmap(headers@) =~= strmap(vp_h).insert((str_parse(w, vp_s)->0).0, (str_parse(w, vp_s.skip(n1 as int))->0).0));
    }
@@ fn frames::payloads::decode_headers :: props=C03,C05,C09,C14
@ spec
    ensures match hdr_parse(2, old(src)@) { Some((m, n)) => r is Ok && strmap(r->Ok_0@) == m && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int), None => r is Err },
@ hint start
    broadcast use vstd::layout::layout_of_primitives;
@@ fn frames::payloads::decode_small_headers :: props=C03,C05,C09
@ spec
    ensures match hdr_parse(1, old(src)@) { Some((m, n)) => r is Ok && strmap(r->Ok_0@) == m && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int), None => r is Err },
@ hint start
    broadcast use vstd::layout::layout_of_primitives;
