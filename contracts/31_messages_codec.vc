@@ module spec
    pub open spec fn reqv(c: CallRequest) -> ReqV { ReqV { flags: c.flags, fields: reqfv(c.fields), args: cargsv(c.args) } }
    pub open spec fn resv(c: CallResponse) -> ResV { ResV { flags: c.flags, fields: resfv(c.fields), args: cargsv(c.args) } }
    pub open spec fn contv(c: CallContinue) -> ContV { ContV { flags: c.flags, args: cargsv(c.args) } }
    pub open spec fn errorv(e: ErrorMsg) -> ErrorV { ErrorV { code: e.code, tracing: e.tracing, message: e.message@ } }
    pub broadcast proof fn lemma_reqf_len(v: ReqFieldsV, a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] reqf_wire(v, a), #[trigger] reqf_wire(v, b)
        ensures a.len() == b.len()
    {
        reveal(reqf_wire);
        let x = choose|h: Seq<u8>| #[trigger] hdr_wire(1, v.headers, h) && a == be32(v.ttl as nat) + (tracing_wire(v.tracing) + (str_wire(1, v.service) + h));
        let y = choose|h: Seq<u8>| #[trigger] hdr_wire(1, v.headers, h) && b == be32(v.ttl as nat) + (tracing_wire(v.tracing) + (str_wire(1, v.service) + h));
        lemma_hdr_len(1, v.headers, x, y);
    }
    pub proof fn lemma_reqf_refit(b: Seq<u8>)
        ensures reqf_parse(b) is Some ==> reqf_fits((reqf_parse(b)->0).0)
    {
        reveal(reqf_parse);
        if reqf_parse(b) is Some { let n = (str_parse(1, b.skip(29))->0).1; lemma_str_refit(1, b.skip(29)); lemma_hdr_refit(1, b.skip(29 + n as int)); }
    }
    pub broadcast proof fn lemma_resf_len(v: ResFieldsV, a: Seq<u8>, b: Seq<u8>)
        requires #[trigger] resf_wire(v, a), #[trigger] resf_wire(v, b)
        ensures a.len() == b.len()
    {
        reveal(resf_wire);
        let x = choose|h: Seq<u8>| #[trigger] hdr_wire(1, v.headers, h) && a == seq![response_code(v.code) as u8] + (tracing_wire(v.tracing) + h);
        let y = choose|h: Seq<u8>| #[trigger] hdr_wire(1, v.headers, h) && b == seq![response_code(v.code) as u8] + (tracing_wire(v.tracing) + h);
        lemma_hdr_len(1, v.headers, x, y);
    }
    pub open spec fn res_fits(v: ResV, n: nat) -> bool { exists|f: Seq<u8>| #[trigger] resf_wire(v.fields, f) && resf_fits(v.fields) && cargs_fit(v.args, n + 1 + f.len()) }
@@ fn frames::payloads::encode_checksum :: props=C04,C05,C06,C07
@ hint start
    reveal(sum_wire);
@ spec
    ensures ({ let cs = if checksum_type == ChecksumType::None { None } else { value };
        match r {
            Ok(_) => (checksum_type != ChecksumType::None ==> cs is Some) && final(dst)@ == old(dst)@ + sum_wire(checksum_type, cs),
            Err(_) => checksum_type != ChecksumType::None && cs is None,
        } }),
@@ fn frames::payloads::decode_checksum :: props=C03,C05,C06,C08
@ spec
    ensures match sum_parse(old(src)@) {
        Some((ct, cs, n)) => r is Ok && r->Ok_0 == (ct, cs) && final(src)@ == old(src)@.skip(n as int) && n <= old(src)@.len(),
        None => r is Err,
    },
@ hint start
    reveal(sum_parse);
    proof { if src@.len() >= 5 { lemma_of_range(src@.skip(1)); } }
@@ fn frames::payloads::encode_args :: props=C04,C05,C06,C07
@ hint start
    reveal_with_fuel(args_wire, 2);
@ spec
    ensures match r {
        Ok(_) => args_fit(argsv(args@), old(dst)@.len()) && final(dst)@ == old(dst)@ + args_wire(argsv(args@)),
        Err(_) => !args_fit(argsv(args@), old(dst)@.len()),
    },
@ hint preloop 0
    let ghost vp_all = vp_it0@; let ghost vp_d = dst@; let ghost mut vp_i: int = 0; let ghost vp_a = argsv(vp_all);
    proof { assert(vp_a.take(0) =~= seq![]); assert(args_wire(vp_a.take(0)) =~= seq![]); assert(args_size(vp_a.take(0)) == 0); }
@ loop 0
    invariant 0 <= vp_i <= vp_all.len(), vp_it0@ == vp_all.skip(vp_i), vp_a == argsv(vp_all),
        dst@.len() == vp_d.len() + args_size(vp_a.take(vp_i)),
        args_size(vp_a.take(vp_i)) <= 65535 ==> dst@ == vp_d + args_wire(vp_a.take(vp_i)),
    ensures vp_i == vp_all.len(),
    decreases vp_all.len() - vp_i
@ hint loopstart 0
    proof { if vp_i < vp_all.len() {
        lemma_args_push(vp_a.take(vp_i), vp_a[vp_i]); assert(vp_a.take(vp_i).push(vp_a[vp_i]) =~= vp_a.take(vp_i + 1)); assert(vp_a[vp_i] == argv(vp_all[vp_i]));
    } }
@ hint loopend 0
    proof { vp_i = vp_i + 1; }
@ hint postloop 0
    proof { assert(vp_a.take(vp_i) =~= vp_a); }
@@ fn frames::payloads::decode_args :: props=C03,C05,C06,C08
@ spec
    requires old(src)@.len() <= 65535
    ensures ({ let b = old(src)@;
        if b.len() == 0 || args_parse(b, 3) is None { r is Err }
        else { r is Ok && argsv(r->Ok_0@) == args_parse(b, 3)->0 && final(src)@ == b.skip(b.len() as int) } }),
@ hint preloop 0
    proof { }
@ hint before is_empty 0
    let ghost vp_b = src@;
    proof { assert(argsv(args@) =~= seq![]); if args_parse(vp_b, 3) is Some { assert(argsv(args@) + args_parse(vp_b, 3)->0 =~= args_parse(vp_b, 3)->0); } }
@ loop 0
    invariant src@.len() <= 65535, args@.len() <= 3, vp_b == old(src)@, vp_b.len() > 0, src@.len() <= vp_b.len(),
        src@ == vp_b.skip(vp_b.len() - src@.len()),
        match args_parse(src@, (3 - args@.len()) as nat) { Some(a) => args_parse(vp_b, 3) == Some(argsv(args@) + a), None => args_parse(vp_b, 3) is None },
    decreases 3 - args@.len()
@ hint loopstart 0
    let ghost vp_s = src@; let ghost vp_as = args@;
@ hint loopend 0
    proof { let x = args@.last(); assert(argsv(args@) =~= argsv(vp_as).push(argv(x)));
        let rest = args_parse(src@, (3 - args@.len()) as nat);
        if rest is Some { assert(argsv(args@) + rest->0 =~= argsv(vp_as) + (seq![argv(x)] + rest->0)); } }
@ hint tail
    proof { assert(argsv(args@) + Seq::<Seq<u8>>::empty() =~= argsv(args@)); }
@@ fn frames::payloads::decode_arg :: props=C03,C05,C06,C08
@ spec
    requires old(src)@.len() <= 65535
    ensures ({ let b = old(src)@;
        if b.len() < 2 || of16(b) > b.len() - 2 { r is Err }
        else { r is Ok && argv(r->Ok_0) == b.skip(2).take(of16(b) as int) && final(src)@ == b.skip(2 + of16(b) as int) } }),
@ hint start
    proof { lemma_of_range(src@); if src@.len() >= 2 { assert(src@.skip(2).take(0) =~= seq![]); } }
@@ fn frames::payloads::Tracing::new :: props=C03,C04,C05,C07 auto
@@ fn frames::payloads::<Tracing as Default>::default :: props=C05
@ spec
    ensures r == (Tracing { span_id: 0, parent_id: 0, trace_id: 0, trace_flags: TraceFlags { bits: 0 } }),
@@ fn frames::payloads::Init::new :: props=C03,C04,C05 auto
@@ fn frames::payloads::<Init as Default>::default :: props=C05,C14
@ spec
    ensures r.version == 2, r.headers@ == Map::<Seq<char>, String>::empty(),
@@ fn frames::payloads::Init::version :: props=C05,C14 auto
@@ fn frames::payloads::Init::headers :: props=C05 auto
@@ fn frames::payloads::CallArgs::new :: props=C03,C04,C05,C06,C07,C08 auto
@@ fn frames::payloads::CallWithFieldsEncoded::new :: props=C03,C04,C05,C06,C07 auto
@@ fn frames::payloads::CallRequestFields::new :: props=C03,C04,C05,C07,C09 auto
@@ fn frames::payloads::CallRequest::new :: props=C03,C04,C05 auto
@@ fn frames::payloads::CallResponseFields::new :: props=C03,C04,C05,C07,C09 auto
@@ fn frames::payloads::CallResponse::new :: props=C03,C04,C05 auto
@@ fn frames::payloads::CallContinue::new :: props=C03,C04,C05,C06,C07,C08 auto
@@ fn frames::payloads::CallContinue::flags :: props=C05,C06,C08 auto
@@ fn frames::payloads::Cancel::new :: props=C03,C04,C05 auto
@@ fn frames::payloads::Claim::new :: props=C03,C04,C05 auto
@@ fn frames::payloads::ErrorMsg::new :: props=C03,C04,C05 auto
@@ fn frames::payloads::CallArgs::args_mut :: props=C06,C08
@ spec
    ensures *r == old(self).args, *final(self) == (CallArgs { args: *final(r), ..*old(self) }),
@@ fn frames::payloads::CallContinue::args_mut :: props=C06,C08
@ spec
    ensures *r == old(self).args, *final(self) == (CallContinue { args: *final(r), ..*old(self) }),
@@ impl frames::payloads::<ChecksumType as FromPrimitive>
    open spec fn prim(n: int) -> Option<Self> { checksum_of(n) }
@@ fn frames::payloads::<ChecksumType as FromPrimitive>::from_i64 :: props=C03,C05,C06,C08
@@ fn frames::payloads::<ChecksumType as FromPrimitive>::from_u64 :: props=C03,C05,C06,C08
@@ impl frames::payloads::<ErrorCode as FromPrimitive>
    open spec fn prim(n: int) -> Option<Self> { error_of(n) }
@@ fn frames::payloads::<ErrorCode as FromPrimitive>::from_i64 :: props=C03,C05
@@ fn frames::payloads::<ErrorCode as FromPrimitive>::from_u64 :: props=C03,C05
@@ impl messages::args::<ResponseCode as FromPrimitive>
    open spec fn prim(n: int) -> Option<Self> { response_of(n) }
@@ fn messages::args::<ResponseCode as FromPrimitive>::from_i64 :: props=C03,C05,C11
@@ fn messages::args::<ResponseCode as FromPrimitive>::from_u64 :: props=C03,C05,C11
@@ impl frames::payloads::<Tracing as Codec>
        type V = Tracing;
        type P = Tracing;
        open spec fn cv(self) -> Tracing { self }
        open spec fn wire(v: Tracing, b: Seq<u8>) -> bool { b == tracing_wire(v) }
        open spec fn fits(v: Tracing, n: nat) -> bool { true }
        open spec fn parse(b: Seq<u8>) -> Option<(Tracing, nat)> { tracing_parse(b) }
        open spec fn reads(self, p: Tracing) -> bool { self == p }
@@ fn frames::payloads::<Tracing as Codec>::encode :: props=C03,C04,C05,C07
@ hint start
    reveal(tracing_wire);
@@ fn frames::payloads::<Tracing as Codec>::decode :: props=C03,C05
@ hint start
    reveal(tracing_parse);
    proof { assert(forall|x: u8| x & !(0u8 | 1u8) == 0 <==> x <= 1) by (bit_vector); let b = src@; lemma_of_range(b); if b.len() >= 25 { lemma_of_range(b.skip(8)); lemma_of_range(b.skip(16)); } }
@@ impl frames::payloads::<Init as Codec>
        type V = InitV;
        type P = InitV;
        open spec fn cv(self) -> InitV { initv(self) }
        open spec fn wire(v: InitV, b: Seq<u8>) -> bool { init_wire(v, b) }
        open spec fn fits(v: InitV, n: nat) -> bool { hdr_fits(2, v.headers) }
        open spec fn parse(b: Seq<u8>) -> Option<(InitV, nat)> { init_parse(b) }
        open spec fn reads(self, p: InitV) -> bool { initv(self) == p }
@@ fn frames::payloads::<Init as Codec>::encode :: props=C03,C04,C05,C14
@ hint start
    assert(initv(self).headers == strmap(self.headers@));
@@ fn frames::payloads::<Init as Codec>::decode :: props=C03,C05,C14
@ hint start
    proof { lemma_of_range(src@); }
@@ impl frames::payloads::<CallArgs as Codec>
        type V = ArgsV;
        type P = ArgsV;
        open spec fn cv(self) -> ArgsV { cargsv(self) }
        open spec fn wire(v: ArgsV, b: Seq<u8>) -> bool { b == cargs_wire(v) }
        open spec fn fits(v: ArgsV, n: nat) -> bool { cargs_fit(v, n) }
        open spec fn parse(b: Seq<u8>) -> Option<(ArgsV, nat)> { cargs_parse(b) }
        open spec fn reads(self, p: ArgsV) -> bool { cargsv(self) == p }
@@ fn frames::payloads::<CallArgs as Codec>::encode :: props=C03,C04,C05,C06,C07
@ hint start
    reveal(cargs_wire);
@@ fn frames::payloads::<CallArgs as Codec>::decode :: props=C03,C05,C06,C08
@ hint start
    reveal(cargs_parse);
@@ impl frames::payloads::<CallWithFieldsEncoded as Codec>
        type V = EncV;
        type P = ReqV;
        open spec fn cv(self) -> EncV { EncV { flags: self.flags, fields: self.fields@, args: cargsv(self.args) } }
        open spec fn wire(v: EncV, b: Seq<u8>) -> bool { b == enc_wire(v) }
        open spec fn fits(v: EncV, n: nat) -> bool { cargs_fit(v.args, n + 1 + v.fields.len()) }
        open spec fn parse(b: Seq<u8>) -> Option<(ReqV, nat)> { req_parse(b) }
        open spec fn reads(self, p: ReqV) -> bool { self.flags == p.flags && reqf_wire(p.fields, self.fields@) && cargsv(self.args) == p.args }
@@ fn frames::payloads::<CallWithFieldsEncoded as Codec>::encode :: props=C03,C04,C05,C06,C07
@@ fn frames::payloads::<CallWithFieldsEncoded as Codec>::decode :: props=C03,C05
@ hint start
    proof { assert(forall|x: u8| x & !(0u8 | 1u8 | 2u8) == 0 <==> x <= 3) by (bit_vector); lemma_reqf_refit(src@.skip(1)); }
@@ impl frames::payloads::<CallRequestFields as Codec>
        type V = ReqFieldsV;
        type P = ReqFieldsV;
        open spec fn cv(self) -> ReqFieldsV { reqfv(self) }
        open spec fn wire(v: ReqFieldsV, b: Seq<u8>) -> bool { reqf_wire(v, b) }
        open spec fn fits(v: ReqFieldsV, n: nat) -> bool { reqf_fits(v) }
        open spec fn parse(b: Seq<u8>) -> Option<(ReqFieldsV, nat)> { reqf_parse(b) }
        open spec fn reads(self, p: ReqFieldsV) -> bool { reqfv(self) == p }
@@ fn frames::payloads::<CallRequestFields as Codec>::encode :: props=C03,C04,C05,C07,C09,C15
@ hint start
    assert(reqfv(self).headers == strmap(self.headers@) && reqfv(self).service == self.service@);
    reveal(reqf_wire);
@@ fn frames::payloads::<CallRequestFields as Codec>::decode :: props=C03,C05,C09,C15
@ hint start
    reveal(reqf_parse);
    proof { lemma_of_range(src@); }
@@ impl frames::payloads::<CallRequest as Codec>
        type V = ReqV;
        type P = ReqV;
        open spec fn cv(self) -> ReqV { reqv(self) }
        open spec fn wire(v: ReqV, b: Seq<u8>) -> bool { req_wire(v, b) }
        open spec fn fits(v: ReqV, n: nat) -> bool { req_fits(v, n) }
        open spec fn parse(b: Seq<u8>) -> Option<(ReqV, nat)> { req_parse(b) }
        open spec fn reads(self, p: ReqV) -> bool { reqv(self) == p }
@@ fn frames::payloads::<CallRequest as Codec>::encode :: props=C03,C04,C05,C09
@ hint start
    assert(reqv(self).fields == reqfv(self.fields) && reqv(self).args == cargsv(self.args));
    broadcast use lemma_reqf_len;
@@ fn frames::payloads::<CallRequest as Codec>::decode :: props=C03,C05,C06,C08,C09
@ hint start
    proof { assert(forall|x: u8| x & !(0u8 | 1u8 | 2u8) == 0 <==> x <= 3) by (bit_vector); }
@@ impl frames::payloads::<CallResponseFields as Codec>
        type V = ResFieldsV;
        type P = ResFieldsV;
        open spec fn cv(self) -> ResFieldsV { resfv(self) }
        open spec fn wire(v: ResFieldsV, b: Seq<u8>) -> bool { resf_wire(v, b) }
        open spec fn fits(v: ResFieldsV, n: nat) -> bool { resf_fits(v) }
        open spec fn parse(b: Seq<u8>) -> Option<(ResFieldsV, nat)> { resf_parse(b) }
        open spec fn reads(self, p: ResFieldsV) -> bool { resfv(self) == p }
@@ fn frames::payloads::<CallResponseFields as Codec>::encode :: props=C03,C04,C05,C07,C09,C11
@ hint start
    assert(resfv(self).headers == strmap(self.headers@));
    reveal(resf_wire);
@@ fn frames::payloads::<CallResponseFields as Codec>::decode :: props=C03,C05,C09,C11
@ hint start
    reveal(resf_parse);
@@ impl frames::payloads::<CallResponse as Codec>
        type V = ResV;
        type P = ResV;
        open spec fn cv(self) -> ResV { resv(self) }
        open spec fn wire(v: ResV, b: Seq<u8>) -> bool { res_wire(v, b) }
        open spec fn fits(v: ResV, n: nat) -> bool { res_fits(v, n) }
        open spec fn parse(b: Seq<u8>) -> Option<(ResV, nat)> { res_parse(b) }
        open spec fn reads(self, p: ResV) -> bool { resv(self) == p }
@@ fn frames::payloads::<CallResponse as Codec>::encode :: props=C03,C04,C05,C09
@ hint start
    assert(resv(self).fields == resfv(self.fields) && resv(self).args == cargsv(self.args));
    broadcast use lemma_resf_len;
@@ fn frames::payloads::<CallResponse as Codec>::decode :: props=C03,C05,C06,C08,C09
@ hint start
    proof { assert(forall|x: u8| x & !(0u8 | 1u8 | 2u8) == 0 <==> x <= 3) by (bit_vector); }
@@ impl frames::payloads::<CallContinue as Codec>
        type V = ContV;
        type P = ContV;
        open spec fn cv(self) -> ContV { contv(self) }
        open spec fn wire(v: ContV, b: Seq<u8>) -> bool { b == cont_wire(v) }
        open spec fn fits(v: ContV, n: nat) -> bool { cargs_fit(v.args, n + 1) }
        open spec fn parse(b: Seq<u8>) -> Option<(ContV, nat)> { cont_parse(b) }
        open spec fn reads(self, p: ContV) -> bool { contv(self) == p }
@@ fn frames::payloads::<CallContinue as Codec>::encode :: props=C03,C04,C05,C06,C07
@@ fn frames::payloads::<CallContinue as Codec>::decode :: props=C03,C05,C06,C08
@ hint start
    proof { assert(forall|x: u8| x & !(0u8 | 1u8 | 2u8) == 0 <==> x <= 3) by (bit_vector); }
@@ impl frames::payloads::<Cancel as Codec>
        type V = CancelV;
        type P = CancelV;
        open spec fn cv(self) -> CancelV { CancelV { ttl: self.ttl, tracing: self.tracing, why: self.why@ } }
        open spec fn wire(v: CancelV, b: Seq<u8>) -> bool { b == cancel_wire(v) }
        open spec fn fits(v: CancelV, n: nat) -> bool { str_fits(2, v.why) }
        open spec fn parse(b: Seq<u8>) -> Option<(CancelV, nat)> { cancel_parse(b) }
        open spec fn reads(self, p: CancelV) -> bool { self.cv() == p }
@@ fn frames::payloads::<Cancel as Codec>::encode :: props=C03,C04,C05
@@ fn frames::payloads::<Cancel as Codec>::decode :: props=C03,C05
@ hint start
    proof { lemma_of_range(src@); }
@@ impl frames::payloads::<Claim as Codec>
        type V = (u32, Tracing);
        type P = (u32, Tracing);
        open spec fn cv(self) -> (u32, Tracing) { (self.ttl, self.tracing) }
        open spec fn wire(v: (u32, Tracing), b: Seq<u8>) -> bool { b == claim_wire(v.0, v.1) }
        open spec fn fits(v: (u32, Tracing), n: nat) -> bool { true }
        open spec fn parse(b: Seq<u8>) -> Option<((u32, Tracing), nat)> { claim_parse(b) }
        open spec fn reads(self, p: (u32, Tracing)) -> bool { self.cv() == p }
@@ fn frames::payloads::<Claim as Codec>::encode :: props=C03,C04,C05
@@ fn frames::payloads::<Claim as Codec>::decode :: props=C03,C05
@ hint start
    proof { lemma_of_range(src@); }
@@ impl frames::payloads::<ErrorMsg as Codec>
        type V = ErrorV;
        type P = ErrorV;
        open spec fn cv(self) -> ErrorV { errorv(self) }
        open spec fn wire(v: ErrorV, b: Seq<u8>) -> bool { b == error_wire(v) }
        open spec fn fits(v: ErrorV, n: nat) -> bool { str_fits(2, v.message) }
        open spec fn parse(b: Seq<u8>) -> Option<(ErrorV, nat)> { error_parse(b) }
        open spec fn reads(self, p: ErrorV) -> bool { errorv(self) == p }
@@ fn frames::payloads::<ErrorMsg as Codec>::encode :: props=C03,C04,C05,C11,C17
@@ fn frames::payloads::<ErrorMsg as Codec>::decode :: props=C03,C05,C11,C14
