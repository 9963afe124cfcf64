//! C01..C05: frame codec and payload codecs against the independent oracle.
use crate::oracle as o;
use crate::util::*;
use bytes::{Bytes, BytesMut};
use std::collections::{HashMap, VecDeque};
use tchannel_rs::verif_hooks::*;
use tokio_util::codec::{Decoder, Encoder};

pub const TYPES: [(u8, &str); 11] = [
    (0x01, "InitRequest"),
    (0x02, "InitResponse"),
    (0x03, "CallRequest"),
    (0x04, "CallResponse"),
    (0x13, "CallRequestContinue"),
    (0x14, "CallResponseContinue"),
    (0xc0, "Cancel"),
    (0xc1, "Claim"),
    (0xd0, "PingRequest"),
    (0xd1, "PingResponse"),
    (0xff, "Error"),
];
pub fn ty(code: u8) -> Type {
    match code {
        0x01 => Type::InitRequest,
        0x02 => Type::InitResponse,
        0x03 => Type::CallRequest,
        0x04 => Type::CallResponse,
        0x13 => Type::CallRequestContinue,
        0x14 => Type::CallResponseContinue,
        0xc0 => Type::Cancel,
        0xc1 => Type::Claim,
        0xd0 => Type::PingRequest,
        0xd1 => Type::PingResponse,
        0xff => Type::Error,
        _ => unreachable!(),
    }
}
pub fn code_of(t: Type) -> u8 {
    TYPES.iter().find(|(c, _)| ty(*c) == t).unwrap().0
}

fn enc(prefix: &[u8], t: u8, id: u32, payload: &[u8]) -> (Result<(), String>, Vec<u8>) {
    let mut dst = BytesMut::from(prefix);
    let r = TFrameIdCodec {}
        .encode(TFrameId::new(id, TFrame::new(ty(t), Bytes::from(payload.to_vec()))), &mut dst)
        .map_err(|e| e.to_string());
    (r, dst.to_vec())
}

fn payload_sizes() -> Vec<usize> {
    vec![0, 1, 2, 3, 15, 16, 17, 25, 200, 239, 240, 241, 255, 256, 257, 4096, 32751, 32752, 65279, 65280, 65502, 65503, 65516, 65517, 65518, 65519]
}

fn c01_case(prefix: &[u8], t: u8, id: u32, payload: &[u8], tail: &[u8]) -> Res {
    let (r, out) = enc(prefix, t, id, payload);
    r.map_err(|e| format!("encode refused a frame that fits: {}", e))?;
    let want = o::frame(id, t, payload);
    ensure(out[..prefix.len()] == *prefix, || "encode changed earlier bytes of the buffer".into())?;
    ensure(out[prefix.len()..] == want[..], || format!("encoded {} expected {}", brief(&out[prefix.len()..]), brief(&want)))?;
    let mut src = BytesMut::from(&want[..]);
    src.extend_from_slice(tail);
    let d = TFrameIdCodec {}.decode(&mut src).map_err(|e| format!("decode failed: {}", e))?;
    let d = d.ok_or("decode asked for more data on a complete frame")?;
    ensure(*d.id() == id, || format!("decoded id {}", d.id()))?;
    ensure(*d.frame().frame_type() == ty(t), || format!("decoded type {:?}", d.frame().frame_type()))?;
    ensure(d.frame().payload()[..] == *payload, || format!("decoded payload {}", brief(d.frame().payload())))?;
    ensure(src[..] == *tail, || format!("left {} instead of {}", brief(&src), brief(tail)))
}

/// All frames through one encoder, one decoder and one buffer each.
fn c01_series(frames: &[(u8, u32, Vec<u8>)], drain: bool) -> Res {
    let (mut enc, mut dec) = (TFrameIdCodec {}, TFrameIdCodec {});
    let (mut dst, mut src, mut want) = (BytesMut::new(), BytesMut::new(), 0usize);
    for (i, (t, id, p)) in frames.iter().enumerate() {
        enc.encode(TFrameId::new(*id, TFrame::new(ty(*t), Bytes::from(p.clone()))), &mut dst).map_err(|e| format!("encode refused frame {} that fits: {}", i, e))?;
        want += 16 + p.len();
        if drain && i % 3 == 2 {
            src.extend_from_slice(&dst.split());
        }
        ensure(src.len() + dst.len() == want, || format!("{} bytes instead of {} after frame {}", src.len() + dst.len(), want, i))?;
    }
    src.extend_from_slice(&dst.split());
    for (i, (t, id, p)) in frames.iter().enumerate() {
        let d = dec.decode(&mut src).map_err(|e| format!("decode of frame {} failed: {}", i, e))?;
        let d = d.ok_or_else(|| format!("decode asked for more data on complete frame {}", i))?;
        ensure(*d.id() == *id && *d.frame().frame_type() == ty(*t) && d.frame().payload()[..] == p[..], || {
            format!("frame {} decoded as id {} type {:?} payload {}", i, d.id(), d.frame().frame_type(), brief(d.frame().payload()))
        })?;
    }
    ensure(src.is_empty(), || format!("left {}", brief(&src)))
}

pub fn c01(c: &mut Ctx) {
    for (t, name) in TYPES {
        for id in [0u32, 1, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff] {
            c.case(|| format!("type {} id {:#x} payload 5", name, id), || c01_case(&[], t, id, &[1, 2, 3, 4, 5], &[9]));
        }
    }
    let mut rng = c.rng(1);
    for n in payload_sizes() {
        for (pre, tail) in [(0, 0), (3, 1), (17, 40)] {
            let (t, id, p, a, b) = (rng.pick(&TYPES).0, rng.next() as u32, rng.bytes(n), rng.bytes(pre), rng.bytes(tail));
            c.case(|| format!("type {:#x} id {:#x} payload len {} prefix {} tail {}", t, id, n, pre, tail), || c01_case(&a, t, id, &p, &b));
        }
    }
    // A buffer that holds much already, and many frames one after the other through one buffer.
    for pre in [255, 256, 8191, 8192, 32768, 65519, 65520, 65535, 65536, 65537, 131072, 300000] {
        for n in [0, 5, 4096, 65519] {
            let (t, id, p, a) = (rng.pick(&TYPES).0, rng.next() as u32, rng.bytes(n), rng.bytes(pre));
            c.case(|| format!("type {:#x} id {:#x} payload len {} prefix {} tail 300", t, id, n, pre), || c01_case(&a, t, id, &p, &[7; 300]));
        }
    }
    for (count, len) in [(40, 40), (300, 300), (9, 65519), (40, 30000), (70000, 0)] {
        let frames: Vec<(u8, u32, Vec<u8>)> = (0..count).map(|_| (rng.pick(&TYPES).0, rng.next() as u32, rng.bytes(len))).collect();
        for drain in [false, true] {
            c.case(|| format!("{} frames of payload len {} through one buffer, {}", count, len, if drain { "drained in between" } else { "not drained" }), || c01_series(&frames, drain));
        }
    }
    let n = if c.thorough { 2000000 } else { 20000 };
    for _ in 0..n {
        if !c.more() { break; }
        let len = if rng.below(10) == 0 { rng.below(65520) } else { rng.below(300) };
        let (pre, tail) = (rng.below(20), rng.below(40));
        let (t, id, p, a, b) = (rng.pick(&TYPES).0, rng.next() as u32, rng.bytes(len), rng.bytes(pre), rng.bytes(tail));
        c.case(|| format!("random type {:#x} id {:#x} payload {} prefix {} tail {}", t, id, brief(&p), a.len(), b.len()), || c01_case(&a, t, id, &p, &b));
    }
}

/// Feeds the stream in the given pieces; returns decoded frames until an error or the end.
fn feed(stream: &[u8], cuts: &[usize]) -> Result<(Vec<(u32, u8, Vec<u8>)>, bool, usize), String> {
    let mut codec = TFrameIdCodec {};
    let mut buf = BytesMut::new();
    let mut out = vec![];
    let mut pos = 0;
    let mut all: Vec<usize> = cuts.to_vec();
    all.push(stream.len());
    for cut in all {
        if cut > pos {
            buf.extend_from_slice(&stream[pos..cut]);
            pos = cut;
        }
        loop {
            let before = buf.to_vec();
            match codec.decode(&mut buf) {
                Ok(None) => {
                    ensure(buf[..] == before[..], || "asking for more data changed the buffered bytes".into())?;
                    break;
                }
                Ok(Some(f)) => {
                    let size = u16::from_be_bytes([before[0], before[1]]) as usize;
                    ensure(size <= before.len(), || "frame decoded before it was complete".to_string())?;
                    ensure(buf[..] == before[size..], || format!("consumed {} of a frame of {}", before.len() - buf.len(), size))?;
                    out.push((*f.id(), code_of(*f.frame().frame_type()), f.frame().payload().to_vec()));
                }
                Err(_) => return Ok((out, true, buf.len())),
            }
        }
    }
    Ok((out, false, buf.len()))
}

pub fn c02(c: &mut Ctx) {
    let mut rng = c.rng(2);
    // every position of a single cut, for small streams, and byte by byte
    for _ in 0..4 {
        let mut frames = vec![];
        let mut stream = vec![];
        for _ in 0..3 {
            let n = rng.below(12);
            let f = (rng.next() as u32, rng.pick(&TYPES).0, rng.bytes(n));
            stream.extend(o::frame(f.0, f.1, &f.2));
            frames.push(f);
        }
        for cut in 0..=stream.len() {
            c.case(|| format!("stream {} one cut at {}", brief(&stream), cut), || {
                let (got, err, left) = feed(&stream, &[cut])?;
                ensure(!err && left == 0 && got == frames, || format!("got {} frames, error {}, left {}", got.len(), err, left))
            });
        }
        let every: Vec<usize> = (1..stream.len()).collect();
        c.case(|| format!("stream {} byte by byte", brief(&stream)), || {
            let (got, err, left) = feed(&stream, &every)?;
            ensure(!err && left == 0 && got == frames, || format!("got {} frames, error {}, left {}", got.len(), err, left))
        });
    }
    // incomplete at the end
    for n in [0usize, 1, 2, 3, 15, 16, 17, 30] {
        c.case(|| format!("only {} bytes of a 40 byte frame", n), || {
            let s = o::frame(7, 3, &[5; 24]);
            let (got, err, left) = feed(&s[..n], &[])?;
            ensure(!err && left == n && got.is_empty(), || format!("got {:?} error {} left {}", got, err, left))
        });
    }
    // unknown types and short sizes
    for t in 0..=255u8 {
        let known = TYPES.iter().any(|(k, _)| *k == t);
        c.case(|| format!("frame type byte {:#x}", t), || {
            let s = o::frame(3, t, &[1, 2, 3]);
            let (got, err, _) = feed(&s, &[])?;
            ensure(err != known && got.len() == known as usize, || format!("type {:#x}: error {} frames {}", t, err, got.len()))
        });
    }
    for size in 0..16u16 {
        c.case(|| format!("announced size {}", size), || {
            let mut s = o::frame(3, 3, &[1, 2, 3]);
            s[..2].copy_from_slice(&size.to_be_bytes());
            let (got, err, _) = feed(&s, &[])?;
            ensure(err && got.is_empty(), || format!("frames {:?} error {}", got, err))
        });
    }
    // many frames in one read, cut off or broken at the end
    for (count, len) in [(300usize, 300usize), (5, 65519), (30, 9000), (5000, 0), (3, 20)] {
        let mut frames = vec![];
        let mut stream = vec![];
        for _ in 0..count {
            let f = (rng.next() as u32, rng.pick(&TYPES).0, rng.bytes(len));
            stream.extend(o::frame(f.0, f.1, &f.2));
            frames.push(f);
        }
        let whole = stream.len();
        let next = o::frame(9, 3, &rng.bytes(70 + len / 2));
        let mut tails: Vec<(Vec<u8>, bool)> = [0, 1, 2, 3, 15, 16, 17, next.len() - 1].iter().map(|n| (next[..*n].to_vec(), false)).collect();
        for t in [0x00u8, 0x05, 0x12, 0x15, 0x83, 0xc2, 0xfe] {
            tails.push((o::frame(9, t, &[1; 40]), true));
        }
        for size in [0u8, 1, 15] {
            let mut bad = o::frame(9, 3, &[1; 40]);
            bad[1] = size;
            tails.push((bad, true));
        }
        for (tail, bad) in tails {
            let mut s = stream.clone();
            s.extend(&tail);
            for cuts in [vec![], vec![whole], vec![whole / 2, whole + tail.len().min(2)]] {
                c.case(|| format!("{} frames of payload {} and then {} (bad: {}), cuts {:?}", count, len, brief(&tail), bad, cuts), || {
                    let (got, err, left) = feed(&s, &cuts.iter().cloned().filter(|x| *x < s.len()).collect::<Vec<_>>())?;
                    ensure(err == bad && got == frames && (bad || left == tail.len()), || format!("got {} frames, error {}, left {}", got.len(), err, left))
                });
            }
        }
    }
    // every announced size, one byte missing, then complete
    for size in (16..65536usize).step_by(if c.thorough { 1 } else { 257 }).chain([16, 17, 255, 256, 32767, 32768, 65535]) {
        c.case(|| format!("frame of size {} with its last byte late", size), || {
            let f = (size as u32, 3, vec![size as u8; size - 16]);
            let s = o::frame(f.0, f.1, &f.2);
            let (got, err, left) = feed(&s[..size - 1], &[])?;
            ensure(!err && got.is_empty() && left == size - 1, || format!("incomplete: got {} error {} left {}", got.len(), err, left))?;
            let (got, err, left) = feed(&s, &[size - 1])?;
            ensure(!err && got == vec![f] && left == 0, || format!("complete: got {} error {} left {}", got.len(), err, left))
        });
    }
    // reserved bytes are ignored
    c.case(|| "reserved bytes set".to_string(), || {
        let mut s = o::frame(3, 3, &[1, 2, 3]);
        s[3] = 0xee;
        for i in 8..16 { s[i] = 0x55; }
        let (got, err, _) = feed(&s, &[])?;
        ensure(!err && got == vec![(3, 3, vec![1, 2, 3])], || format!("{:?} {}", got, err))
    });
    // long streams with random cuts, large frames
    let n = if c.thorough { 300000 } else { 6000 };
    for _ in 0..n {
        if !c.more() { break; }
        let mut frames = vec![];
        let mut stream = vec![];
        for _ in 0..1 + rng.below(6) {
            let len = match rng.below(8) { 0 => rng.pick(&[65519usize, 65518, 65500, 32768, 8192]), 1 => 0, _ => rng.below(600) };
            let f = (rng.next() as u32, rng.pick(&TYPES).0, rng.bytes(len));
            stream.extend(o::frame(f.0, f.1, &f.2));
            frames.push(f);
        }
        let mut cuts: Vec<usize> = (0..rng.below(30)).map(|_| rng.below(stream.len())).collect();
        // cuts inside headers
        let mut at = 0;
        for f in &frames {
            if rng.below(2) == 0 { cuts.push(at + rng.below(18)); }
            at += 16 + f.2.len();
        }
        cuts.sort();
        let cuts: Vec<usize> = cuts.into_iter().filter(|x| *x < stream.len()).collect();
        c.case(|| format!("random stream of {} frames, {} bytes, cuts {:?}", frames.len(), stream.len(), cuts), || {
            let (got, err, left) = feed(&stream, &cuts)?;
            ensure(!err && left == 0 && got == frames, || format!("got {} of {} frames, error {}, left {}", got.len(), frames.len(), err, left))
        });
    }
}

// ---------------------------------------------------------------- payloads

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Init, Req, Res, Cont, Error, Cancel, Claim, Args, Tracing, ReqFields }
pub const KINDS: [Kind; 10] = [Kind::Init, Kind::Req, Kind::Res, Kind::Cont, Kind::Error, Kind::Cancel, Kind::Claim, Kind::Args, Kind::Tracing, Kind::ReqFields];

pub type H = HashMap<String, String>;
/// Independent reading of a payload; None = must be refused.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct V { nums: Vec<u64>, text: Vec<String>, headers: H, chunks: Vec<Vec<u8>> }

fn rd_tracing(c: &mut o::Cur, v: &mut V) -> Option<()> {
    for _ in 0..3 {
        let b = c.take(8)?;
        v.nums.push(u64::from_be_bytes(b.try_into().unwrap()));
    }
    let f = c.u8()?;
    if f > 1 { return None; }
    v.nums.push(f as u64);
    Some(())
}
fn rd_headers(c: &mut o::Cur, v: &mut V, small: bool) -> Option<()> {
    let n = if small { c.u8()? as usize } else { c.u16()? as usize };
    for _ in 0..n {
        let (k, x) = if small { (c.s1()?, c.s1()?) } else { (c.s2()?, c.s2()?) };
        v.headers.insert(k, x);
    }
    Some(())
}
fn rd_args(c: &mut o::Cur, v: &mut V) -> Option<()> {
    let t = c.u8()?;
    if t > 3 { return None; }
    v.nums.push(t as u64);
    if t != 0 { v.nums.push(c.u32()? as u64); }
    v.chunks = o::parse_chunks(c)?;
    if v.chunks.is_empty() || v.chunks.len() > 3 { return None; }
    Some(())
}
pub fn read(kind: Kind, b: &[u8]) -> Option<V> {
    let mut c = o::Cur(b);
    let mut v = V::default();
    match kind {
        Kind::Init => {
            v.nums.push(c.u16()? as u64);
            rd_headers(&mut c, &mut v, false)?;
        }
        Kind::Req | Kind::Res | Kind::Cont => {
            let f = c.u8()?;
            if f > 3 { return None; }
            v.nums.push(f as u64);
            if kind == Kind::Req {
                v.nums.push(c.u32()? as u64);
                rd_tracing(&mut c, &mut v)?;
                v.text.push(c.s1()?);
                rd_headers(&mut c, &mut v, true)?;
            } else if kind == Kind::Res {
                let code = c.u8()?;
                if code > 1 { return None; }
                v.nums.push(code as u64);
                rd_tracing(&mut c, &mut v)?;
                rd_headers(&mut c, &mut v, true)?;
            }
            rd_args(&mut c, &mut v)?;
        }
        Kind::ReqFields => {
            v.nums.push(c.u32()? as u64);
            rd_tracing(&mut c, &mut v)?;
            v.text.push(c.s1()?);
            rd_headers(&mut c, &mut v, true)?;
        }
        Kind::Error => {
            let code = c.u8()?;
            if code > 8 && code != 0xff { return None; }
            v.nums.push(code as u64);
            rd_tracing(&mut c, &mut v)?;
            v.text.push(c.s2()?);
        }
        Kind::Cancel => {
            v.nums.push(c.u32()? as u64);
            rd_tracing(&mut c, &mut v)?;
            v.text.push(c.s2()?);
        }
        Kind::Claim => {
            v.nums.push(c.u32()? as u64);
            rd_tracing(&mut c, &mut v)?;
        }
        Kind::Args => rd_args(&mut c, &mut v)?,
        Kind::Tracing => rd_tracing(&mut c, &mut v)?,
    }
    Some(v)
}

fn tr(t: &Tracing) -> Vec<u64> {
    vec![*t.span_id(), *t.parent_id(), *t.trace_id(), t.trace_flags().bits() as u64]
}
fn ar(a: &CallArgs, v: &mut V) {
    v.nums.push(csum_code(*a.checksum_type()) as u64);
    if let Some(x) = a.checksum() { v.nums.push(*x as u64); }
    v.chunks = a.args().iter().map(|c| c.as_ref().map(|b| b.to_vec()).unwrap_or_default()).collect();
}
fn csum_code(t: ChecksumType) -> u8 {
    match t { ChecksumType::None => 0, ChecksumType::Crc32 => 1, ChecksumType::Farmhash => 2, ChecksumType::Crc32C => 3 }
}
fn csum_of(c: u8) -> ChecksumType {
    [ChecksumType::None, ChecksumType::Crc32, ChecksumType::Farmhash, ChecksumType::Crc32C][c as usize]
}
const ERR: [(u8, ErrorCode); 10] = [
    (0, ErrorCode::Invalid), (1, ErrorCode::Timeout), (2, ErrorCode::Cancelled), (3, ErrorCode::Busy), (4, ErrorCode::Declined),
    (5, ErrorCode::UnexpectedError), (6, ErrorCode::BadRequest), (7, ErrorCode::NetworkError), (8, ErrorCode::Unhealthy), (0xff, ErrorCode::FatalProtocolError),
];
fn err_of(c: u8) -> ErrorCode { ERR.iter().find(|(k, _)| *k == c).unwrap().1 }

/// Decodes with the real code; Err = refused.
pub fn real(kind: Kind, b: &[u8]) -> Result<V, String> {
    let mut src = Bytes::from(b.to_vec());
    let s = &mut src;
    let mut v = V::default();
    let e = |e: tchannel_rs::errors::CodecError| e.to_string();
    match kind {
        Kind::Init => {
            let x = Init::decode(s).map_err(e)?;
            v.nums.push(*x.version() as u64);
            v.headers = x.headers().clone();
        }
        Kind::Req => {
            let x = CallRequest::decode(s).map_err(e)?;
            v.nums.push(x.flags.bits() as u64);
            v.nums.push(*x.fields.ttl() as u64);
            v.nums.extend(tr(x.fields.tracing()));
            v.text.push(x.fields.service().clone());
            v.headers = x.fields.headers().clone();
            ar(&x.args, &mut v);
        }
        Kind::Res => {
            let x = decode_call_response(s).map_err(e)?;
            v.nums.push(x.flags.bits() as u64);
            v.nums.push(match x.code { ResponseCode::Ok => 0, ResponseCode::Error => 1 });
            v.nums.extend(tr(&x.tracing));
            v.headers = x.headers.clone();
            ar(&x.args, &mut v);
        }
        Kind::Cont => {
            let x = CallContinue::decode(s).map_err(e)?;
            v.nums.push(x.flags().bits() as u64);
            ar(&x.args, &mut v);
        }
        Kind::ReqFields => {
            let x = CallRequestFields::decode(s).map_err(e)?;
            v.nums.push(*x.ttl() as u64);
            v.nums.extend(tr(x.tracing()));
            v.text.push(x.service().clone());
            v.headers = x.headers().clone();
        }
        Kind::Error => {
            let x = ErrorMsg::decode(s).map_err(e)?;
            // fields are private: recover them by comparing with the oracle's reading
            let want = read(Kind::Error, b).ok_or("accepted a payload that must be refused")?;
            let y = ErrorMsg::new(err_of(want.nums[0] as u8), mk_tracing(&want.nums[1..5]), want.text[0].clone());
            if x != y { return Ok(V { text: vec![format!("{:?}", x)], ..V::default() }); }
            v = want;
        }
        Kind::Cancel => {
            let x = Cancel::decode(s).map_err(e)?;
            v.nums.push(*x.ttl() as u64);
            v.nums.extend(tr(x.tracing()));
            v.text.push(x.why().clone());
        }
        Kind::Claim => {
            let x = Claim::decode(s).map_err(e)?;
            v.nums.push(*x.ttl() as u64);
            v.nums.extend(tr(x.tracing()));
        }
        Kind::Args => {
            let x = CallArgs::decode(s).map_err(e)?;
            ar(&x, &mut v);
        }
        Kind::Tracing => {
            let x = Tracing::decode(s).map_err(e)?;
            v.nums.extend(tr(&x));
        }
    }
    Ok(v)
}
fn mk_tracing(n: &[u64]) -> Tracing {
    Tracing::new(n[0], n[1], n[2], if n[3] == 1 { TraceFlags::ENABLED } else { TraceFlags::NONE })
}
fn flags_of(n: u64) -> Flags {
    Flags::from_bits(n as u8).unwrap()
}
fn mk_args(v: &V, at: usize, absent: bool) -> CallArgs {
    let t = v.nums[at] as u8;
    let sum = if t == 0 { None } else { Some(v.nums[at + 1] as u32) };
    let chunks: VecDeque<Option<Bytes>> = v.chunks.iter().map(|c| if c.is_empty() && absent { None } else { Some(Bytes::from(c.clone())) }).collect();
    CallArgs::new(csum_of(t), sum, chunks)
}
/// Encodes a value with the real code.
pub fn encode_real(kind: Kind, v: &V, absent: bool) -> Result<Vec<u8>, String> {
    let e = |e: tchannel_rs::errors::CodecError| e.to_string();
    let b = match kind {
        Kind::Init => Init::new(v.nums[0] as u16, v.headers.clone()).encode_bytes().map_err(e)?,
        Kind::Req => {
            let f = CallRequestFields::new(v.nums[1] as u32, mk_tracing(&v.nums[2..6]), v.text[0].clone(), v.headers.clone());
            CallRequest::new(flags_of(v.nums[0]), f, mk_args(v, 6, absent)).encode_bytes().map_err(e)?
        }
        Kind::Res => {
            let mut d = BytesMut::new();
            let view = CallResponseView {
                flags: flags_of(v.nums[0]),
                code: if v.nums[1] == 0 { ResponseCode::Ok } else { ResponseCode::Error },
                tracing: mk_tracing(&v.nums[2..6]),
                headers: v.headers.clone(),
                args: mk_args(v, 6, absent),
            };
            encode_call_response(view, &mut d).map_err(e)?;
            d.freeze()
        }
        Kind::Cont => CallContinue::new(flags_of(v.nums[0]), mk_args(v, 1, absent)).encode_bytes().map_err(e)?,
        Kind::ReqFields => CallRequestFields::new(v.nums[0] as u32, mk_tracing(&v.nums[1..5]), v.text[0].clone(), v.headers.clone()).encode_bytes().map_err(e)?,
        Kind::Error => ErrorMsg::new(err_of(v.nums[0] as u8), mk_tracing(&v.nums[1..5]), v.text[0].clone()).encode_bytes().map_err(e)?,
        Kind::Cancel => Cancel::new(v.nums[0] as u32, mk_tracing(&v.nums[1..5]), v.text[0].clone()).encode_bytes().map_err(e)?,
        Kind::Claim => Claim::new(v.nums[0] as u32, mk_tracing(&v.nums[1..5])).encode_bytes().map_err(e)?,
        Kind::Args => mk_args(v, 0, absent).encode_bytes().map_err(e)?,
        Kind::Tracing => mk_tracing(&v.nums).encode_bytes().map_err(e)?,
    };
    Ok(b.to_vec())
}
/// The protocol encoding with headers in the given order.
pub fn encode_oracle(kind: Kind, v: &V, order: &[String]) -> Vec<u8> {
    let hs: Vec<(String, String)> = order.iter().map(|k| (k.clone(), v.headers[k].clone())).collect();
    let t = |n: &[u64]| (n[0], n[1], n[2], n[3] as u8);
    let tail = |at: usize| {
        let ct = v.nums[at] as u8;
        o::args(ct, if ct == 0 { None } else { Some(v.nums[at + 1] as u32) }, &v.chunks)
    };
    match kind {
        Kind::Init => {
            let mut b = (v.nums[0] as u16).to_be_bytes().to_vec();
            b.extend(o::headers2(&hs));
            b
        }
        Kind::Req => o::call_req(v.nums[0] as u8, v.nums[1] as u32, t(&v.nums[2..6]), &v.text[0], &hs, &tail(6)),
        Kind::ReqFields => o::call_req(0, v.nums[0] as u32, t(&v.nums[1..5]), &v.text[0], &hs, &[])[1..].to_vec(),
        Kind::Res => o::call_res(v.nums[0] as u8, v.nums[1] as u8, t(&v.nums[2..6]), &hs, &tail(6)),
        Kind::Cont => {
            let mut b = vec![v.nums[0] as u8];
            b.extend(tail(1));
            b
        }
        Kind::Error => {
            let mut b = vec![v.nums[0] as u8];
            b.extend(o::tracing(t(&v.nums[1..5])));
            b.extend(o::str2(&v.text[0]));
            b
        }
        Kind::Cancel | Kind::Claim => {
            let mut b = (v.nums[0] as u32).to_be_bytes().to_vec();
            b.extend(o::tracing(t(&v.nums[1..5])));
            if kind == Kind::Cancel { b.extend(o::str2(&v.text[0])); }
            b
        }
        Kind::Args => tail(0),
        Kind::Tracing => o::tracing(t(&v.nums)),
    }
}

pub fn gen_value(rng: &mut Rng, kind: Kind, big: bool) -> V {
    let mut v = V::default();
    let big_num = |rng: &mut Rng| match rng.below(4) { 0 => 0, 1 => u64::MAX, _ => rng.next() };
    let tracing = |rng: &mut Rng, v: &mut V| {
        for _ in 0..3 { let x = big_num(rng); v.nums.push(x); }
        v.nums.push(rng.below(2) as u64);
    };
    let headers = |rng: &mut Rng, v: &mut V, small: bool| {
        let n = match rng.below(6) { 0 => 0, 1 => 1, 2 if big && small => 255, 3 if big && !small => 300, _ => rng.below(5) };
        let max = if n > 50 { 8 } else if small { 255 } else if big { 3000 } else { 300 };
        for i in 0..n {
            let kl = match rng.below(4) { 0 => 0, 1 if n <= 3 => max, _ => rng.below(12.min(max)) };
            let vl = match rng.below(4) { 0 => 0, 1 if n <= 3 => max, _ => rng.below(20.min(max)) };
            let k = if n > 5 { format!("k{}", i) } else { rng.text(kl) };
            let x = rng.text(vl);
            v.headers.insert(k, x);
        }
    };
    let args = |rng: &mut Rng, v: &mut V| {
        let t = rng.below(4) as u64;
        v.nums.push(t);
        if t != 0 { v.nums.push(rng.next() as u32 as u64); }
        let mut left = 60000usize.saturating_sub(v.headers.iter().map(|(a, b)| a.len() + b.len() + 4).sum::<usize>());
        if !big { left = left.min(400); }
        for _ in 0..1 + rng.below(3) {
            let n = match rng.below(5) { 0 => 0, 1 => rng.pick(&[1usize, 255, 256, 257]).min(left), 2 if big => left, _ => rng.below(left.min(300) + 1) };
            left -= n;
            v.chunks.push(rng.bytes(n));
        }
    };
    match kind {
        Kind::Init => { v.nums.push(rng.pick(&[0u64, 1, 2, 3, 256, 512, 65535])); headers(rng, &mut v, false); }
        Kind::Req => {
            v.nums.push(rng.below(4) as u64);
            v.nums.push(rng.pick(&[0u64, 1, 60000, 0x01020304, 0xffffffff]));
            tracing(rng, &mut v);
            let n = rng.pick(&[0usize, 1, 10, 127, 128, 254, 255]);
            v.text.push(rng.text(n));
            headers(rng, &mut v, true);
            args(rng, &mut v);
        }
        Kind::ReqFields => {
            v.nums.push(rng.next() as u32 as u64);
            tracing(rng, &mut v);
            let n = rng.pick(&[0usize, 1, 10, 127, 128, 254, 255]);
            v.text.push(rng.text(n));
            headers(rng, &mut v, true);
        }
        Kind::Res => {
            v.nums.push(rng.below(4) as u64);
            v.nums.push(rng.below(2) as u64);
            tracing(rng, &mut v);
            headers(rng, &mut v, true);
            args(rng, &mut v);
        }
        Kind::Cont => { v.nums.push(rng.below(4) as u64); args(rng, &mut v); }
        Kind::Error => {
            v.nums.push(rng.pick(&ERR).0 as u64);
            tracing(rng, &mut v);
            let n = rng.pick(&[0usize, 1, 30, 255, 256, 300]);
            let n = if big && rng.below(6) == 0 { 65490 } else { n };
            v.text.push(rng.text(n));
        }
        Kind::Cancel => {
            v.nums.push(rng.next() as u32 as u64);
            tracing(rng, &mut v);
            let n = rng.pick(&[0usize, 1, 30, 255, 256, 300]);
            v.text.push(rng.text(n));
        }
        Kind::Claim => { v.nums.push(rng.next() as u32 as u64); tracing(rng, &mut v); }
        Kind::Args => args(rng, &mut v),
        Kind::Tracing => tracing(rng, &mut v),
    }
    v
}
fn vdesc(v: &V) -> String {
    format!("nums {:?} text {:?} headers {} chunks {:?}", v.nums, v.text.iter().map(|t| t.chars().take(20).collect::<String>()).collect::<Vec<_>>(), v.headers.len(), v.chunks.iter().map(|c| c.len()).collect::<Vec<_>>())
}

/// Strictness check of one payload: the real decoder must agree with the independent reading.
fn agree(kind: Kind, b: &[u8]) -> Res {
    let want = read(kind, b);
    let got = no_panic(|| real(kind, b)).map_err(|p| format!("decoding {}", p))?;
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(g)) => Err(format!("accepted an invalid payload as {}", vdesc(&g))),
        (Some(w), Ok(g)) => ensure(w == g, || format!("decoded {} expected {}", vdesc(&g), vdesc(&w))),
        (Some(_), Err(e)) => Err(format!("refused a valid payload: {}", e)),
    }
}

pub fn c03(c: &mut Ctx) {
    let mut rng = c.rng(3);
    for kind in KINDS {
        for round in 0..3 {
            let v = gen_value(&mut rng, kind, false);
            let order: Vec<String> = v.headers.keys().cloned().collect();
            let b = encode_oracle(kind, &v, &order);
            for cut in 0..=b.len() {
                if cut > 400 && cut % 37 != 0 && cut + 3 < b.len() { continue; }
                c.case(|| format!("{:?} payload #{} {} cut to {} bytes", kind, round, brief(&b), cut), || agree(kind, &b[..cut]));
            }
            if c.done() { return; }
        }
        c.case(|| format!("{:?} all 0xff", kind), || agree(kind, &[0xff; 600]));
        c.case(|| format!("{:?} all zero", kind), || agree(kind, &[0; 600]));
        // one byte changed at every position to several values
        let v = gen_value(&mut rng, kind, false);
        let order: Vec<String> = v.headers.keys().cloned().collect();
        let b = encode_oracle(kind, &v, &order);
        for at in 0..b.len().min(500) {
            for val in [0u8, 1, 2, 3, 4, 8, 9, 0x7f, 0x80, 0xc3, 0xfe, 0xff] {
                c.case(|| format!("{:?} payload {} byte {} set to {}", kind, brief(&b), at, val), || {
                    let mut x = b.clone();
                    x[at] = val;
                    agree(kind, &x)
                });
            }
            if c.done() { return; }
        }
    }
    // long texts, headers and arguments, cut at and around every power of two
    for kind in KINDS {
        for n in [250usize, 255, 5000, 20000, 40000, 65000] {
            let mut v = gen_value(&mut rng, kind, false);
            match kind {
                Kind::Error | Kind::Cancel => v.text = vec!["t".repeat(n)],
                Kind::Init => { v.headers.clear(); v.headers.insert("k".repeat(n / 2), "v".repeat(n / 2)); }
                Kind::Req | Kind::Res | Kind::Cont | Kind::Args => v.chunks = vec![vec![1; n / 2], vec![2; n / 2]],
                Kind::ReqFields if n <= 255 => v.text = vec!["t".repeat(n)],
                _ => continue,
            }
            let order: Vec<String> = v.headers.keys().cloned().collect();
            let b = encode_oracle(kind, &v, &order);
            let mut cuts: Vec<usize> = vec![0, b.len() / 2, b.len() / 2 + 1, b.len() / 2 - 1, b.len() * 3 / 4, b.len() - 1, b.len() - 2, b.len()];
            for k in 4..17 { for d in [0usize, 1, 2, 30] { cuts.push((1 << k) + d); } }
            for cut in cuts {
                if cut > b.len() { continue; }
                c.case(|| format!("{:?} with {} bytes of content, cut to {} of {} bytes", kind, n, cut, b.len()), || agree(kind, &b[..cut]));
            }
            if c.done() { return; }
        }
    }
    // frame level
    for n in 0..40usize {
        for fill in [0u8, 1, 3, 15, 16, 17, 0xff] {
            c.case(|| format!("frame decoder on {} bytes of {:#x}", n, fill), || {
                let mut src = BytesMut::from(&vec![fill; n][..]);
                no_panic(|| TFrameIdCodec {}.decode(&mut src).map(|_| ()).map_err(|e| e.to_string())).map(|_| ()).map_err(|p| format!("frame decoder {}", p))
            });
        }
    }
    // whole messages through the reader: checksum types, odd chunk counts
    for ct in 0..=4u8 {
        for n in 0..=4usize {
            for first in [true, false] {
                c.case(|| format!("message with checksum type {} and {} chunks, in {} frame", ct, n, if first { "the first" } else { "a continuation" }), || {
                    let chunks: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8; 3]).collect();
                    let bad = o::args(ct, if ct == 0 { None } else { Some(77) }, &chunks);
                    let good = o::args(0, None, &[b"e".to_vec()]);
                    let hs = vec![("as".to_string(), "raw".to_string())];
                    let frames = if first {
                        vec![(3u8, o::call_req(0, 1, (1, 2, 3, 0), "s", &hs, &bad))]
                    } else {
                        let mut k = vec![0u8];
                        k.extend(&bad);
                        vec![(3u8, o::call_req(1, 1, (1, 2, 3, 0), "s", &hs, &good)), (0x13, k)]
                    };
                    let r = no_panic(|| crate::frag::read_req(&frames)).map_err(|p| format!("reader {}", p))?;
                    let ok = ct == 0 && (1..=3).contains(&n);
                    ensure(r.is_ok() == ok, || format!("result {:?}", r.map(|x| x.1)))
                });
            }
        }
    }
    let n = if c.thorough { 20000000 } else { 200000 };
    for _ in 0..n {
        if !c.more() { break; }
        let kind = rng.pick(&KINDS);
        let b = if rng.below(3) == 0 {
            let n = rng.below(120);
            rng.bytes(n)
        } else {
            let v = gen_value(&mut rng, kind, false);
            let order: Vec<String> = v.headers.keys().cloned().collect();
            let mut b = encode_oracle(kind, &v, &order);
            for _ in 0..rng.below(4) {
                if b.is_empty() { break; }
                match rng.below(4) {
                    0 => { let i = rng.below(b.len()); b[i] = rng.next() as u8; }
                    1 => { let i = rng.below(b.len()); b[i] ^= 1 << rng.below(8); }
                    2 => { let i = rng.below(b.len() + 1); b.truncate(i); }
                    _ => { let i = rng.below(b.len() + 1); let x = rng.next() as u8; b.insert(i, x); }
                }
            }
            b
        };
        c.case(|| format!("{:?} mutated {:02x?}", kind, &b[..b.len().min(100)]), || agree(kind, &b));
    }
}

pub fn c04(c: &mut Ctx) {
    for n in [65515usize, 65516, 65517, 65518, 65519, 65520, 65521, 65535, 65536, 65537, 65552, 70000, 131055, 131056, 131072, 200000] {
        for pre in [0usize, 5] {
            c.case(|| format!("frame with payload of {} bytes after {} bytes", n, pre), || {
                let p = vec![7u8; n];
                let prefix = vec![1u8; pre];
                let (r, out) = no_panic(|| enc(&prefix, 3, 9, &p)).map_err(|x| format!("encode {}", x))?;
                if n <= 65519 {
                    ensure(r.is_ok() && out[pre..] == o::frame(9, 3, &p)[..], || format!("frame that fits: {:?}, wrote {}", r, brief(&out)))
                } else {
                    ensure(r.is_err(), || format!("oversized frame accepted, wrote {}", brief(&out)))?;
                    ensure(out == prefix, || format!("refused frame left {} bytes behind", out.len() - pre))
                }
            });
        }
    }
    let rt = |kind: Kind, v: &V, fits: bool| -> Res {
        let r = no_panic(|| encode_real(kind, v, true)).map_err(|x| format!("encode {}", x))?;
        match r {
            Ok(b) => {
                ensure(fits, || format!("accepted a value that does not fit, wrote {} bytes {}", b.len(), brief(&b)))?;
                let got = read(kind, &b).ok_or_else(|| format!("wrote inconsistent lengths: {}", brief(&b)))?;
                ensure(got == *v, || format!("wrote {}", vdesc(&got)))
            }
            Err(e) => ensure(!fits, || format!("refused a value that fits: {}", e)),
        }
    };
    let base = |kind: Kind| {
        let mut v = V::default();
        match kind {
            Kind::Init => v.nums = vec![2],
            Kind::Error => { v.nums = vec![5, 0, 0, 0, 0]; v.text = vec![String::new()] }
            Kind::Cancel => { v.nums = vec![5, 0, 0, 0, 0]; v.text = vec![String::new()] }
            Kind::ReqFields => { v.nums = vec![5, 0, 0, 0, 0]; v.text = vec!["s".into()] }
            Kind::Req => { v.nums = vec![0, 5, 0, 0, 0, 0, 0]; v.text = vec!["s".into()]; v.chunks = vec![vec![1]] }
            Kind::Res => { v.nums = vec![0, 0, 0, 0, 0, 0, 0]; v.chunks = vec![vec![1]] }
            Kind::Cont => { v.nums = vec![0, 0]; v.chunks = vec![vec![1]] }
            Kind::Args => { v.nums = vec![0]; v.chunks = vec![vec![1]] }
            _ => {}
        }
        v
    };
    for n in [0usize, 1, 254, 255, 256, 257, 300, 511, 512, 513, 65535, 65536, 65537] {
        for kind in [Kind::ReqFields, Kind::Req] {
            c.case(|| format!("{:?} service name of {} bytes", kind, n), || {
                let mut v = base(kind);
                v.text = vec!["x".repeat(n)];
                rt(kind, &v, n <= 255)
            });
        }
        for kind in [Kind::ReqFields, Kind::Res, Kind::Init] {
            for key in [true, false] {
                c.case(|| format!("{:?} header {} of {} bytes", kind, if key { "key" } else { "value" }, n), || {
                    let mut v = base(kind);
                    if key { v.headers.insert("k".repeat(n), "v".into()); } else { v.headers.insert("k".into(), "v".repeat(n)); }
                    rt(kind, &v, if kind == Kind::Init { n <= 65535 } else { n <= 255 })
                });
            }
        }
        for kind in [Kind::Error, Kind::Cancel] {
            c.case(|| format!("{:?} text of {} bytes", kind, n), || {
                let mut v = base(kind);
                v.text = vec!["y".repeat(n)];
                rt(kind, &v, n <= 65535)
            });
        }
    }
    for n in [0usize, 1, 127, 128, 254, 255, 256, 257, 300, 512, 65535, 65536, 65537] {
        for kind in [Kind::ReqFields, Kind::Res, Kind::Init] {
            if kind == Kind::Res && n > 300 { continue; }
            c.case(|| format!("{:?} with {} headers", kind, n), || {
                let mut v = base(kind);
                for i in 0..n { v.headers.insert(format!("{:x}", i), String::new()); }
                rt(kind, &v, if kind == Kind::Init { n <= 65535 } else { n <= 255 })
            });
        }
    }
    for n in 0..=8usize {
        for kind in [Kind::Args, Kind::Cont, Kind::Req, Kind::Res] {
            c.case(|| format!("{:?} with {} argument chunks", kind, n), || {
                let mut v = base(kind);
                v.chunks = (0..n).map(|i| vec![i as u8; i]).collect();
                rt(kind, &v, (1..=3).contains(&n))
            });
        }
    }
    // calls that get too long by their headers
    for kind in [Kind::Req, Kind::Res] {
        for headers in [100usize, 126, 127, 128, 129, 180, 254, 255] {
            for chunk in [0usize, 1, 200, 700, 60000] {
                c.case(|| format!("{:?} with {} headers of 512 bytes and a chunk of {}", kind, headers, chunk), || {
                    let mut v = base(kind);
                    for i in 0..headers { v.headers.insert(format!("{:0255}", i), "v".repeat(255)); }
                    v.chunks = vec![vec![5; chunk]];
                    let order: Vec<String> = v.headers.keys().cloned().collect();
                    rt(kind, &v, encode_oracle(kind, &v, &order).len() <= 65519)
                });
            }
        }
    }
    // chunk lengths around the frame limit: payload = 1 + 1 + sum(2 + len) for a continuation
    for n in [65512usize, 65513, 65514, 65515, 65516, 65517, 65518, 65530, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 131072, 131075] {
        for extra in 0..3usize {
            c.case(|| format!("continuation with a chunk of {} bytes and {} empty chunks", n, extra), || {
                let mut v = base(Kind::Cont);
                v.chunks = vec![vec![3; n]];
                for _ in 0..extra { v.chunks.push(vec![]); }
                let total = 2 + 2 + n + 2 * extra;
                let r = no_panic(|| encode_real(Kind::Cont, &v, true)).map_err(|x| format!("encode {}", x))?;
                match r {
                    Ok(b) => {
                        ensure(total <= 65519, || format!("accepted {} bytes of payload", total))?;
                        ensure(read(Kind::Cont, &b).as_ref() == Some(&v), || format!("wrote inconsistent lengths {}", brief(&b)))
                    }
                    Err(e) => ensure(total > 65518, || format!("refused a payload of {} bytes: {}", total, e)),
                }
            });
        }
    }
    let mut rng = c.rng(4);
    let n = if c.thorough { 1000000 } else { 10000 };
    for _ in 0..n {
        if !c.more() { break; }
        let kind = rng.pick(&KINDS);
        let v = gen_value(&mut rng, kind, true);
        c.case(|| format!("{:?} {}", kind, vdesc(&v)), || {
            let b = no_panic(|| encode_real(kind, &v, true)).map_err(|x| format!("encode {}", x))?;
            match b {
                Ok(b) => ensure(read(kind, &b).as_ref() == Some(&v), || format!("wrote inconsistent lengths {}", brief(&b))),
                Err(e) => Err(format!("refused a value that fits: {}", e)),
            }
        });
    }
}

fn c05_case(kind: Kind, v: &V, absent: bool) -> Res {
    let b = encode_real(kind, v, absent).map_err(|e| format!("encode refused: {}", e))?;
    let order: Vec<String> = v.headers.keys().cloned().collect();
    if order.len() <= 1 {
        let want = encode_oracle(kind, v, &order);
        ensure(b == want, || format!("encoded {} expected {}", brief(&b), brief(&want)))?;
    } else {
        ensure(b.len() == encode_oracle(kind, v, &order).len(), || "encoded length differs".into())?;
    }
    let seen = read(kind, &b).ok_or_else(|| format!("encoded bytes do not follow the protocol: {}", brief(&b)))?;
    ensure(seen == *v, || format!("encoded bytes mean {}", vdesc(&seen)))?;
    let back = real(kind, &b).map_err(|e| format!("own encoding refused: {}", e))?;
    ensure(back == *v, || format!("round trip gave {}", vdesc(&back)))?;
    let want = encode_oracle(kind, v, &order);
    let back = real(kind, &want).map_err(|e| format!("protocol encoding refused: {}", e))?;
    ensure(back == *v, || format!("decoding the protocol encoding gave {}", vdesc(&back)))
}

pub fn c05(c: &mut Ctx) {
    let mut rng = c.rng(5);
    for (code, ec) in ERR {
        c.case(|| format!("error code {:?}", ec), || {
            let v = V { nums: vec![code as u64, 1, 2, 3, 1], text: vec!["msg".into()], ..V::default() };
            c05_case(Kind::Error, &v, false)
        });
    }
    for ct in 0..4u64 {
        for fl in 0..4u64 {
            for absent in [true, false] {
                c.case(|| format!("checksum type {} flags {} absent {}", ct, fl, absent), || {
                    let mut nums = vec![fl, ct];
                    if ct != 0 { nums.push(0xdeadbeef); }
                    let v = V { nums, chunks: vec![vec![], b"xy".to_vec(), vec![]], ..V::default() };
                    c05_case(Kind::Cont, &v, absent)
                });
            }
        }
    }
    c.case(|| "checksum value missing".to_string(), || {
        let a = CallArgs::new(ChecksumType::Crc32, None, VecDeque::from(vec![Some(Bytes::from("a"))]));
        ensure(a.encode_bytes().is_err(), || "encoded a checksum that is not there".into())
    });
    c.case(|| "default init".to_string(), || {
        let b = Init::default().encode_bytes().map_err(|e| e.to_string())?;
        ensure(b[..] == [0, 2, 0, 0], || format!("{:?}", b))
    });
    c.case(|| "call with fields encoded".to_string(), || {
        let f = CallRequestFields::new(5, Tracing::new(1, 2, 3, TraceFlags::NONE), "svc".into(), HashMap::new()).encode_bytes().map_err(|e| e.to_string())?;
        let a = CallArgs::new(ChecksumType::None, None, VecDeque::from(vec![Some(Bytes::from("a")), None]));
        let b = CallWithFieldsEncoded::new(Flags::MORE_FRAGMENTS_FOLLOW, f.clone(), a).encode_bytes().map_err(|e| e.to_string())?;
        let want = o::call_req(1, 5, (1, 2, 3, 0), "svc", &[], &o::args(0, None, &[b"a".to_vec(), vec![]]));
        ensure(b[..] == want[..], || brief(&b))?;
        let d = CallWithFieldsEncoded::decode(&mut Bytes::from(want)).map_err(|e| e.to_string())?;
        ensure(*d.fields() == f && d.flags().bits() == 1 && d.args().args().len() == 2, || format!("{:?}", d))
    });
    let n = if c.thorough { 3000000 } else { 40000 };
    for i in 0..n {
        if !c.more() { break; }
        let kind = KINDS[i % KINDS.len()];
        let big = rng.below(12) == 0;
        let v = gen_value(&mut rng, kind, big);
        let absent = rng.below(2) == 0;
        c.case(|| format!("{:?} {}", kind, vdesc(&v)), || c05_case(kind, &v, absent));
    }
}
