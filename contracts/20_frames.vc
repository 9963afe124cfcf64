@@ module shim
    // ---------- tokio_util codec traits (the associated types are named by the implementations)
    pub trait Encoder<T> { type Error; fn encode(&mut self, item: T, dst: &mut BytesMut) -> (r: Result<(), Self::Error>); }
    pub trait Decoder { type Item; type Error; fn decode(&mut self, src: &mut BytesMut) -> (r: Result<Option<Self::Item>, Self::Error>); }
@@ item frames::FRAME_HEADER_LENGTH
@@ item frames::FRAME_MAX_LENGTH
@@ item frames::ZERO
@@ item frames::Type #[derive(Clone, Copy)] +eq
@@ item frames::TFrame
@@ item frames::TFrameId
@@ item frames::TFrameIdCodec
@@ module spec
    pub use crate::bytelib::*;
    use crate::frames::{Type, TFrame, TFrameId};
    /// the type codes of the TChannel protocol
    pub open spec fn type_code(t: Type) -> int {
        match t {
            Type::InitRequest => 0x01, Type::InitResponse => 0x02, Type::CallRequest => 0x03, Type::CallResponse => 0x04,
            Type::CallRequestContinue => 0x13, Type::CallResponseContinue => 0x14, Type::Cancel => 0xc0, Type::Claim => 0xc1,
            Type::PingRequest => 0xd0, Type::PingResponse => 0xd1, Type::Error => 0xff,
        }
    }
    pub open spec fn type_of(n: int) -> Option<Type> {
        if n == 0x01 { Some(Type::InitRequest) } else if n == 0x02 { Some(Type::InitResponse) } else if n == 0x03 { Some(Type::CallRequest) }
        else if n == 0x04 { Some(Type::CallResponse) } else if n == 0x13 { Some(Type::CallRequestContinue) } else if n == 0x14 { Some(Type::CallResponseContinue) }
        else if n == 0xc0 { Some(Type::Cancel) } else if n == 0xc1 { Some(Type::Claim) } else if n == 0xd0 { Some(Type::PingRequest) }
        else if n == 0xd1 { Some(Type::PingResponse) } else if n == 0xff { Some(Type::Error) } else { None }
    }
    pub struct FrameV { pub ty: Type, pub id: u32, pub payload: Seq<u8> }
    pub open spec fn framev(f: TFrameId) -> FrameV { FrameV { ty: f.frame.frame_type, id: f.id, payload: f.frame.payload@ } }
    pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
    /// layout of a frame on the wire
    pub open spec fn frame_wire(f: FrameV) -> Seq<u8> {
        be16(16 + f.payload.len()) + seq![type_code(f.ty) as u8] + seq![0u8] + be32(f.id as nat) + zeros(8) + f.payload
    }
    /// a frame fits when its total size fits the 2 byte size field
    pub open spec fn frame_fits(f: FrameV) -> bool { f.payload.len() + 16 <= 65535 }
    pub enum FrameP { More, Bad, Frame { f: FrameV, used: nat } }
    /// what the protocol says the bytes at the head of a stream are
    pub open spec fn frame_parse(b: Seq<u8>) -> FrameP {
        if b.len() < 2 { FrameP::More }
        else if of16(b) > b.len() { FrameP::More }
        else if of16(b) < 16 { FrameP::Bad }
        else { match type_of(b[2] as int) {
            None => FrameP::Bad,
            Some(ty) => FrameP::Frame { f: FrameV { ty, id: of32(b.subrange(4, 8)) as u32, payload: b.subrange(16, of16(b) as int) }, used: of16(b) },
        } }
    }
    pub proof fn lemma_type_codes(t: Type, n: int)
        ensures type_of(type_code(t)) == Some(t), type_of(n) is Some ==> type_code(type_of(n)->0) == n, 0 <= type_code(t) <= 255
    { }
    /// C01: what encode writes is read back as the same frame, and exactly that much is consumed
    pub proof fn theorem_c01_frame_roundtrip(f: FrameV, rest: Seq<u8>)
        requires frame_fits(f)
        ensures frame_parse(frame_wire(f) + rest) == (FrameP::Frame { f, used: (16 + f.payload.len()) as nat }),
            frame_wire(f).len() == 16 + f.payload.len(),
            (frame_wire(f) + rest).skip(16 + f.payload.len() as int) == rest,
            of16(frame_wire(f)) == frame_wire(f).len()
    {
        let w = frame_wire(f); let b = w + rest; let n = be16(16 + f.payload.len());
        lemma_type_codes(f.ty, 0);
        assert(n.len() == 2 && of16(n) == 16 + f.payload.len()) by { lemma_be16(16 + f.payload.len()); }
        assert(be32(f.id as nat).len() == 4 && of32(be32(f.id as nat)) == f.id) by { lemma_be32(f.id as nat); }
        assert(w.len() == 16 + f.payload.len());
        assert(b.len() == w.len() + rest.len());
        assert(b[0] == n[0] && b[1] == n[1] && w[0] == n[0] && w[1] == n[1]);
        assert(of16(b) == of16(n) && of16(w) == of16(n));
        assert(b[2] == type_code(f.ty) as u8);
        assert(b.subrange(4, 8) =~= be32(f.id as nat));
        assert(b.subrange(16, 16 + f.payload.len() as int) =~= f.payload);
        lemma_skip(w, rest);
    }
    // ---------- C02: the frames of a stream, and that cutting the stream does not matter
    pub struct Drain { pub frames: Seq<FrameV>, pub rest: Seq<u8>, pub bad: bool }
    /// everything a decoder produces from the bytes received so far: complete frames, what stays buffered, or an error
    pub open spec fn drain(b: Seq<u8>) -> Drain
        decreases b.len()
    {
        match frame_parse(b) {
            FrameP::More => Drain { frames: seq![], rest: b, bad: false },
            FrameP::Bad => Drain { frames: seq![], rest: b, bad: true },
            FrameP::Frame { f, used } => if used < 16 || used > b.len() { Drain { frames: seq![], rest: b, bad: true } } else {
                let d = drain(b.skip(used as int));
                Drain { frames: seq![f] + d.frames, rest: d.rest, bad: d.bad }
            },
        }
    }
    /// bytes arriving in two reads instead of one
    pub open spec fn drain_then(d: Drain, more: Seq<u8>) -> Drain {
        if d.bad { d } else { let e = drain(d.rest + more); Drain { frames: d.frames + e.frames, rest: e.rest, bad: e.bad } }
    }
    /// bytes arriving in any reads
    pub open spec fn drain_reads(d: Drain, reads: Seq<Seq<u8>>) -> Drain
        decreases reads.len()
    { if reads.len() == 0 { d } else { drain_reads(drain_then(d, reads[0]), reads.skip(1)) } }
    pub open spec fn cat(reads: Seq<Seq<u8>>) -> Seq<u8>
        decreases reads.len()
    { if reads.len() == 0 { seq![] } else { reads[0] + cat(reads.skip(1)) } }
    pub open spec fn same_drain(a: Drain, b: Drain) -> bool { a.frames == b.frames && a.bad == b.bad && (!a.bad ==> a.rest == b.rest) }
    pub proof fn lemma_parse_stable(a: Seq<u8>, b: Seq<u8>)
        ensures !(frame_parse(a) is More) ==> frame_parse(a + b) == frame_parse(a)
    {
        if a.len() >= 2 {
            lemma_of_prefix(a, b);
            if of16(a) <= a.len() && of16(a) >= 16 {
                assert((a + b)[2] == a[2]);
                assert((a + b).subrange(4, 8) =~= a.subrange(4, 8));
                assert((a + b).subrange(16, of16(a) as int) =~= a.subrange(16, of16(a) as int));
            }
        }
    }
    pub proof fn lemma_drain_split(a: Seq<u8>, b: Seq<u8>)
        ensures same_drain(drain(a + b), drain_then(drain(a), b))
        decreases a.len()
    {
        lemma_parse_stable(a, b);
        match frame_parse(a) {
            FrameP::More => { assert(seq![] + drain(a + b).frames =~= drain(a + b).frames); }
            FrameP::Bad => { }
            FrameP::Frame { f, used } => {
                lemma_drain_split(a.skip(used as int), b);
                assert((a + b).skip(used as int) =~= a.skip(used as int) + b);
                let d = drain(a.skip(used as int)); let e = drain(d.rest + b);
                assert(seq![f] + (d.frames + e.frames) =~= (seq![f] + d.frames) + e.frames);
            }
        }
    }
    pub proof fn lemma_drain_reads(d: Drain, s: Seq<u8>, reads: Seq<Seq<u8>>)
        requires same_drain(d, drain(s))
        ensures same_drain(drain_reads(d, reads), drain(s + cat(reads)))
        decreases reads.len()
    {
        if reads.len() == 0 { assert(s + cat(reads) =~= s); }
        else {
            lemma_drain_split(s, reads[0]);
            lemma_drain_reads(drain_then(d, reads[0]), s + reads[0], reads.skip(1));
            assert(s + cat(reads) =~= (s + reads[0]) + cat(reads.skip(1)));
        }
    }
    /// C02: however the stream is cut into reads, the same frames come out and the same bytes stay buffered
    pub proof fn theorem_c02_reads(reads: Seq<Seq<u8>>)
        ensures same_drain(drain_reads(drain(seq![]), reads), drain(cat(reads)))
    {
        lemma_drain_reads(drain(seq![]), seq![], reads);
        assert(Seq::<u8>::empty() + cat(reads) =~= cat(reads));
    }
    /// C02: a stream of encoded frames yields exactly those frames
    pub proof fn theorem_c02_frames(fs: Seq<FrameV>)
        requires forall|i: int| 0 <= i < fs.len() ==> frame_fits(#[trigger] fs[i])
        ensures drain(cat(fs.map_values(|f: FrameV| frame_wire(f)))) == (Drain { frames: fs, rest: seq![], bad: false })
        decreases fs.len()
    {
        let ws = fs.map_values(|f: FrameV| frame_wire(f));
        if fs.len() == 0 { assert(drain(cat(ws)).frames =~= fs); }
        else {
            theorem_c02_frames(fs.skip(1));
            assert(ws.skip(1) =~= fs.skip(1).map_values(|f: FrameV| frame_wire(f)));
            theorem_c01_frame_roundtrip(fs[0], cat(ws.skip(1)));
            assert(seq![fs[0]] + fs.skip(1) =~= fs);
        }
    }
@@ fn frames::TFrame::new :: props=C01,C04,C06,C07 auto
@@ fn frames::TFrame::frame_type :: props=C01,C04,C08 auto
@@ fn frames::TFrame::payload :: props=C01,C04 auto
@@ fn frames::TFrameId::new :: props=C01,C04,C13 auto
@@ fn frames::TFrameId::id :: props=C01,C04 auto
@@ fn frames::TFrameId::frame :: props=C01,C04 auto
@@ fn frames::TFrame::size :: props=C01,C04
@ spec
    ensures r == self.payload@.len(), r <= 0x7fff_ffff_ffff_ffff,
@@ impl frames::<Type as FromPrimitive>
    open spec fn prim(n: int) -> Option<Self> { type_of(n) }
@@ fn frames::<Type as FromPrimitive>::from_i64 :: props=C01,C02,C03
@@ fn frames::<Type as FromPrimitive>::from_u64 :: props=C01,C02,C03
@@ fn frames::<TFrameIdCodec as Encoder>::encode :: props=C01,C04,C13
@ spec
    ensures
        match r {
            Ok(_) => frame_fits(framev(item)) && final(dst)@ == old(dst)@ + frame_wire(framev(item)),
            Err(_) => !frame_fits(framev(item)) && final(dst)@ == old(dst)@,
        },
@ loop 0
    invariant vp_it0.end == 8, 0 <= vp_it0.cur <= 8,
        dst@ == vp_d + zeros(vp_it0.cur as nat),
    ensures vp_it0.cur == 8,
    decreases 8 - vp_it0.cur
@ hint preloop 0
    let ghost vp_d = dst@;
    proof { assert(vp_d + zeros(0) =~= vp_d); }
@ hint loopend 0
    proof { assert(zeros(vp_it0.cur as nat) =~= zeros((vp_it0.cur - 1) as nat) + seq![0u8]); assert(dst@ =~= vp_d + zeros(vp_it0.cur as nat)); }
@ hint tail
    proof { assert(dst@ =~= old(dst)@ + frame_wire(framev(item))); }
@@ fn frames::<TFrameIdCodec as Decoder>::decode :: props=C01,C02,C03,C18
@ spec
    ensures
        match frame_parse(old(src)@) {
            FrameP::More => r == Ok::<Option<TFrameId>, CodecError>(None) && final(src)@ == old(src)@,
            FrameP::Bad => r is Err,
            FrameP::Frame { f, used } => r matches Ok(Some(x)) && framev(x) == f && final(src)@ == old(src)@.skip(used as int),
        },
@ hint start
    proof { let b = old(src)@; lemma_of_range(b); if b.len() >= 16 {
        assert(b.skip(2).skip(1).skip(1) =~= b.skip(4)); assert(of32(b.skip(4)) == of32(b.subrange(4, 8))) by {
            assert(b.skip(4) =~= b.subrange(4, 8) + b.skip(8)); lemma_of_prefix(b.subrange(4, 8), b.skip(8)); }
        lemma_of_range(b.subrange(4, 8));
        assert(b.skip(2).skip(1).skip(1).skip(4).skip(8) =~= b.skip(16));
        if of16(b) >= 16 && of16(b) <= b.len() { let n = of16(b) as int - 16; assert(b.skip(16).take(n) =~= b.subrange(16, n + 16)); assert(b.skip(16).skip(n) =~= b.skip(n + 16)); }
    } }
@@ fn frames::TFrameIdCodec::is_buffering :: props=C01,C02,C03
@ spec
    ensures r == (frame_parse(old(src)@) is More), final(src)@ == old(src)@,
@ hint start
    proof { if src@.len() >= 2 { lemma_of_range(src@); assert(src@.take(2)[0] == src@[0] && src@.take(2)[1] == src@[1]); } }
