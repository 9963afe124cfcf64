//! C06..C09: fragmentation and reassembly.
use crate::codec::{code_of, ty};
use crate::oracle as o;
use crate::util::*;
use bytes::Bytes;
use futures::StreamExt;
use std::collections::HashMap;
use tchannel_rs::messages::{JsonMessage, RawMessage};
use tchannel_rs::verif_hooks::*;

pub type Frames = Vec<(u8, Vec<u8>)>;

fn input(frames: &Frames) -> FrameInput {
    let (tx, rx) = tokio::sync::mpsc::channel(frames.len().max(1));
    for (t, p) in frames {
        tx.try_send(TFrameId::new(5, TFrame::new(ty(*t), Bytes::from(p.clone())))).unwrap();
    }
    rx
}
pub type ReadReq = (String, Vec<Vec<u8>>, HashMap<String, String>);
pub fn read_req(frames: &Frames) -> Result<ReadReq, String> {
    let (f, a) = block(read_request(input(frames))).map_err(|e| e.to_string())?;
    Ok((f.service().clone(), a.args.iter().map(|b| b.to_vec()).collect(), f.headers().clone()))
}
fn read_res(frames: &Frames) -> Result<(u8, Vec<Vec<u8>>), String> {
    let (code, _h, a) = block(read_response(input(frames))).map_err(|e| e.to_string())?;
    Ok((matches!(code, ResponseCode::Error) as u8, a.args.iter().map(|b| b.to_vec()).collect()))
}
fn scheme(i: usize) -> (ArgSchemeValue, &'static str) {
    match i {
        0 => (ArgSchemeValue::Raw, "raw"),
        1 => (ArgSchemeValue::Json, "json"),
        2 => (ArgSchemeValue::Http, "http"),
        3 => (ArgSchemeValue::Thrift, "thrift"),
        _ => (ArgSchemeValue::StreamingThrift, "sthrift"),
    }
}
/// None = request, Some(code) = response.
fn fragment(kind: Option<ResponseCode>, service: &str, sch: usize, args: &[Bytes]) -> Result<Frames, String> {
    let ma = MessageArgs::new(scheme(sch).0, args.to_vec());
    let s = match kind {
        None => fragment_request(service, ma),
        Some(code) => fragment_response(service, code, ma),
    }
    .map_err(|e| format!("fragmentation failed: {}", e))?;
    let v: Vec<TFrame> = block(s.collect());
    Ok(v.into_iter().map(|f| (code_of(*f.frame_type()), f.payload().to_vec())).collect())
}
fn pattern(n: usize, salt: u8) -> Bytes {
    let mut v = vec![0u8; n];
    for (i, b) in v.iter_mut().enumerate() {
        *b = (i as u32).wrapping_mul(2654435761).to_le_bytes()[3] ^ salt;
    }
    Bytes::from(v)
}
#[derive(Clone, Debug)]
struct Msg { req: bool, err: bool, service: usize, sizes: Vec<usize> }
impl Msg {
    fn kind(&self) -> Option<ResponseCode> {
        if self.req { None } else if self.err { Some(ResponseCode::Error) } else { Some(ResponseCode::Ok) }
    }
    fn args(&self) -> Vec<Bytes> {
        self.sizes.iter().enumerate().map(|(i, n)| pattern(*n, i as u8 * 37 + 1)).collect()
    }
    fn name(&self) -> String { "s".repeat(self.service) }
}
fn sizes_of(v: &[Vec<u8>]) -> Vec<usize> { v.iter().map(|a| a.len()).collect() }

fn c06_case(m: &Msg) -> Res {
    let args = m.args();
    let frames = no_panic(|| fragment(m.kind(), &m.name(), 0, &args)).map_err(|p| format!("fragmentation {}", p))??;
    let mut parts = vec![];
    for (t, p) in &frames {
        parts.push(o::parse_call(*t, p).ok_or("a frame does not follow the protocol")?.chunks);
    }
    let want: Vec<Vec<u8>> = args.iter().map(|a| a.to_vec()).collect();
    let got = o::reassemble(&parts);
    ensure(got == want, || format!("by the protocol the frames mean arguments of {:?} bytes, sent {:?}", sizes_of(&got), m.sizes))?;
    let got = no_panic(|| if m.req { read_req(&frames).map(|x| x.1) } else { read_res(&frames).map(|x| x.1) }).map_err(|p| format!("reassembly {}", p))?
        .map_err(|e| format!("reassembly failed: {}", e))?;
    ensure(got == want, || format!("reassembled arguments of {:?} bytes, sent {:?} (content differs: {})", sizes_of(&got), m.sizes, sizes_of(&got) == m.sizes))
}
fn c07_case(m: &Msg) -> Res {
    let args = m.args();
    let frames = no_panic(|| fragment(m.kind(), &m.name(), 1, &args)).map_err(|p| format!("fragmentation {}", p))??;
    ensure(!frames.is_empty(), || "no frames".into())?;
    for (i, (t, p)) in frames.iter().enumerate() {
        let want = match (m.req, i) { (true, 0) => 3, (true, _) => 0x13, (false, 0) => 4, (false, _) => 0x14 };
        ensure(*t == want, || format!("frame {} has type {:#x}", i, t))?;
        ensure(p.len() <= o::MAX_PAYLOAD, || format!("frame {} has {} bytes of payload", i, p.len()))?;
        let call = o::parse_call(*t, p).ok_or_else(|| format!("frame {} does not follow the protocol", i))?;
        ensure((1..=3).contains(&call.chunks.len()), || format!("frame {} has {} chunks", i, call.chunks.len()))?;
        let more = i + 1 < frames.len();
        ensure((call.flags & 1 == 1) == more, || format!("frame {} of {} has flags {}", i, frames.len(), call.flags))?;
        if i == 0 {
            if m.req {
                ensure(call.service == m.name(), || "service name differs".into())?;
                ensure(call.ttl_or_code > 0, || "no time to live".into())?;
            } else {
                ensure(call.ttl_or_code == m.err as u32, || format!("response code {}", call.ttl_or_code))?;
            }
            ensure(call.headers.get("as").map(|s| s.as_str()) == Some("json"), || format!("headers {:?}", call.headers))?;
        }
    }
    Ok(())
}

/// Interesting messages: argument sizes that put an argument end within a few bytes of a frame end.
fn messages(c: &Ctx) -> Vec<Msg> {
    let mut v = vec![];
    for req in [true, false] {
        for service in [0usize, 1, 7, 255] {
            // first frame: room for chunk bytes, found from the fields' size
            let fields = if req { 4 + 25 + 1 + service } else { 1 + 25 } + 1 + (1 + 2 + 1 + 3) + (1 + 2 + 1 + service);
            let cap1 = 65534 - 16 - 1 - fields - 1;
            let cap = 65534 - 16 - 1 - 1;
            let m = |sizes: Vec<usize>| Msg { req, err: service == 7, service, sizes };
            for s in [vec![0, 0, 0], vec![1, 0, 0], vec![0, 1, 0], vec![0, 0, 1], vec![1, 1, 1], vec![0], vec![1], vec![0, 0], vec![3, 4]] {
                v.push(m(s));
            }
            let full = service == 7 || c.thorough;
            let w = if full { 9i64 } else { 5 };
            for d in -w..=w {
                let n = (cap1 as i64 - 2 + d) as usize;
                for (b, e) in [(0usize, 0usize), (0, 5), (5, 0), (1, 1), (70000, 3)] {
                    if !full && b == 70000 { continue; }
                    v.push(m(vec![n, b, e]));
                    if b + e + 4 < n {
                        // the end falls at the boundary inside arg2 and arg3
                        v.push(m(vec![b.min(100), n - 2 - b.min(100), e]));
                        v.push(m(vec![b.min(100), e, n - 4 - b.min(100) - e]));
                        v.push(m(vec![0, n - 2, e]));
                        v.push(m(vec![0, 0, n - 4]));
                    }
                }
                v.push(m(vec![n]));
                v.push(m(vec![3, n - 5]));
                // boundary of the second frame
                let n2 = (cap1 as i64 - 2 + cap as i64 - 2 + d) as usize;
                v.push(m(vec![n2, 0, 0]));
                v.push(m(vec![n2, 4, 4]));
                v.push(m(vec![10, n2 - 12, 4]));
                v.push(m(vec![10, 0, n2 - 14]));
                if full {
                    // arg1 ends at the end of frame 1, arg2 at the end of frame 2
                    v.push(m(vec![cap1 - 2, (cap as i64 - 4 + d) as usize, 6]));
                    v.push(m(vec![cap1 - 3, (cap as i64 - 4 + d) as usize, 6]));
                    v.push(m(vec![cap1 - 4, (cap as i64 - 4 + d) as usize, 0]));
                    let n3 = n2 + cap - 2;
                    v.push(m(vec![n3, 1, 1]));
                }
            }
        }
    }
    v
}
fn with_messages(c: &mut Ctx, f: fn(&Msg) -> Res, salt: u64) {
    for m in messages(c) {
        c.case(|| format!("{:?}", m), || f(&m));
        if c.done() { return; }
    }
    let mut rng = c.rng(salt);
    let n = if c.thorough { 300000 } else { 2500 };
    for _ in 0..n {
        if !c.more() { break; }
        let near = |rng: &mut Rng| match rng.below(6) {
            0 => 0,
            1 => rng.below(4),
            2 => rng.below(300),
            3 => 65516usize.saturating_sub(rng.below(40)) * (1 + rng.below(2)),
            4 => rng.below(140000),
            _ => 65400 + rng.below(130),
        };
        let k = 1 + rng.below(3);
        let m = Msg { req: rng.below(2) == 0, err: rng.below(2) == 0, service: rng.pick(&[0usize, 1, 12, 100, 254, 255]), sizes: (0..k).map(|_| near(&mut rng)).collect() };
        c.case(|| format!("random {:?}", m), || f(&m));
    }
}

fn chunked_frames(req: bool, parts: &[Vec<Vec<u8>>], hs: &[(String, String)]) -> Frames {
    let n = parts.len();
    parts
        .iter()
        .enumerate()
        .map(|(i, chunks)| {
            let flags = (i + 1 < n) as u8;
            let tail = o::args(0, None, chunks);
            match (i, req) {
                (0, true) => (3, o::call_req(flags, 9, (1, 2, 3, 0), "svc", hs, &tail)),
                (0, false) => (4, o::call_res(flags, 0, (1, 2, 3, 0), hs, &tail)),
                (_, req) => {
                    let mut p = vec![flags];
                    p.extend(tail);
                    (if req { 0x13 } else { 0x14 }, p)
                }
            }
        })
        .collect()
}
fn raw_hs() -> Vec<(String, String)> { vec![("as".into(), "raw".into()), ("cn".into(), "me".into())] }

pub fn c06(c: &mut Ctx) {
    // chunkings a conforming peer may choose: all shapes over small chunk sets
    let alphabet: [&[u8]; 3] = [b"", b"x", b"yz"];
    let mut shapes: Vec<Vec<Vec<u8>>> = vec![];
    for n in 1..=3usize {
        for mut k in 0..3usize.pow(n as u32) {
            let mut f = vec![];
            for _ in 0..n { f.push(alphabet[k % 3].to_vec()); k /= 3; }
            shapes.push(f);
        }
    }
    let check = |req: bool, parts: &Vec<Vec<Vec<u8>>>| -> Res {
        let frames = chunked_frames(req, parts, &raw_hs());
        let want = o::reassemble(parts);
        let got = no_panic(|| if req { read_req(&frames).map(|x| x.1) } else { read_res(&frames).map(|x| x.1) }).map_err(|p| format!("reassembly {}", p))?
            .map_err(|e| format!("reassembly failed: {}", e))?;
        ensure(got == want, || format!("reassembled {:?} expected {:?}", got, want))
    };
    for a in &shapes {
        for b in &shapes {
            let parts = vec![a.clone(), b.clone()];
            c.case(|| format!("frames with chunks {:?}", parts), || check(true, &parts));
        }
        let parts = vec![a.clone()];
        c.case(|| format!("frame with chunks {:?}", parts), || check(false, &parts));
        if c.done() { return; }
    }
    let mut rng = c.rng(60);
    let n = if c.thorough { 3000000 } else { 12000 };
    for _ in 0..n {
        if !c.more() { break; }
        let parts: Vec<Vec<Vec<u8>>> = (0..1 + rng.below(6)).map(|_| (0..1 + rng.below(3)).map(|_| { let n = rng.pick(&[0usize, 0, 1, 2, 5, 40]); rng.bytes(n) }).collect()).collect();
        let req = rng.below(2) == 0;
        c.case(|| format!("frames with chunk sizes {:?}", parts.iter().map(|f| sizes_of(f)).collect::<Vec<_>>()), || check(req, &parts));
    }
    with_messages(c, c06_case, 6);
}
pub fn c07(c: &mut Ctx) {
    with_messages(c, c07_case, 7);
    if c.thorough {
        // an argument longer than 4 GiB: its length must not wrap
        c.case(|| "argument of 2^32 bytes".to_string(), || {
            let big = Bytes::from(vec![0u8; 1usize << 32]);
            let ma = MessageArgs::new(ArgSchemeValue::Raw, vec![Bytes::from("e"), Bytes::new(), big]);
            let s = fragment_request("s", ma).map_err(|e| e.to_string())?;
            let n = block(s.fold(0usize, |n, f| async move { n + f.payload().len() }));
            ensure(n >= 1 << 32, || format!("only {} bytes were sent", n))
        });
    }
}

pub fn c08(c: &mut Ctx) {
    let mut rng = c.rng(8);
    let rounds = if c.thorough { 20000 } else { 600 };
    for round in 0..rounds {
        if round > 3 && !c.more() { break; }
        let req = round % 2 == 0;
        let nf = 1 + rng.below(5);
        let parts: Vec<Vec<Vec<u8>>> = (0..nf).map(|_| (0..1 + rng.below(3)).map(|_| { let n = rng.below(6); rng.bytes(n) }).collect()).collect();
        let good = chunked_frames(req, &parts, &raw_hs());
        let want = o::reassemble(&parts);
        let run = |frames: &Frames| no_panic(|| if req { read_req(frames).map(|x| x.1) } else { read_res(frames).map(|x| x.1) });
        c.case(|| format!("complete message of {} frames, round {}", nf, round), || {
            let r = run(&good)?.map_err(|e| format!("refused: {}", e))?;
            ensure(r == want, || "content differs".into())
        });
        for cut in 0..nf {
            c.case(|| format!("message of {} frames ends after {} frames, round {}", nf, cut, round), || {
                match run(&good[..cut].to_vec()).map_err(|p| format!("reader {}", p))? {
                    Ok(a) => Err(format!("incomplete message delivered with arguments of {:?} bytes", sizes_of(&a))),
                    Err(_) => Ok(()),
                }
            });
        }
        for at in 0..nf {
            for bad in [0x01u8, 0x02, 0x03, 0x04, 0x13, 0x14, 0xc0, 0xc1, 0xd0, 0xd1, 0xff] {
                let first = if req { 0x03 } else { 0x04 };
                let ok_here = if at == 0 { bad == first } else { bad == 0x13 || bad == 0x14 };
                if ok_here { continue; }
                c.case(|| format!("frame {} of {} replaced by type {:#x}, round {}", at, nf, bad, round), || {
                    let mut f = good.clone();
                    f[at].0 = bad;
                    if bad == 0xff {
                        let mut p = vec![5u8];
                        p.extend(o::tracing((0, 0, 0, 0)));
                        p.extend(o::str2("boom"));
                        f[at].1 = p;
                    }
                    match run(&f).map_err(|p| format!("reader {}", p))? {
                        Ok(_) => Err("delivered a message with a frame of a wrong type".into()),
                        Err(_) => Ok(()),
                    }
                });
            }
            for bad in [0x01u8, 0x02, 0x03, 0x04, 0xc0, 0xc1, 0xd0, 0xd1, 0xff] {
                if at == 0 || round > 60 { continue; }
                for (what, payload) in [("no payload", vec![]), ("one zero byte", vec![0u8]), ("its own payload", good[at].1.clone()), ("an error without text", vec![0; 28])] {
                    c.case(|| format!("frame {} of {} replaced by type {:#x} with {}, round {}", at, nf, bad, what, round), || {
                        for insert in [false, true] {
                            let mut f = good.clone();
                            if insert { f.insert(at, (bad, payload.clone())); } else { f[at] = (bad, payload.clone()); }
                            if run(&f).map_err(|p| format!("reader {}", p))?.is_ok() { return Err(format!("delivered a message with a frame of a wrong type, inserted: {}", insert)); }
                        }
                        Ok(())
                    });
                }
            }
            c.case(|| format!("frame {} of {} truncated, round {}", at, nf, round), || {
                let mut f = good.clone();
                let n = f[at].1.len();
                f[at].1.truncate(n.min(1));
                match run(&f).map_err(|p| format!("reader {}", p))? {
                    Ok(_) => Err("delivered a message with an undecodable frame".into()),
                    Err(_) => Ok(()),
                }
            });
        }
        c.case(|| format!("message of {} frames with the streaming flag set, round {}", nf, round), || {
            let mut f = good.clone();
            for x in f.iter_mut() { x.1[0] |= 2; }
            let r = run(&f)?.map_err(|e| format!("refused: {}", e))?;
            ensure(r == want, || "content differs".into())?;
            match run(&f[..nf - 1].to_vec()).map_err(|p| format!("reader {}", p))? {
                Ok(_) => Err("incomplete message delivered".into()),
                Err(_) => Ok(()),
            }
        });
        for at in 0..nf {
            for csum in [1u8, 2, 3, 4, 0xff] {
                c.case(|| format!("frame {} of {} with checksum type {}, round {}", at, nf, csum, round), || {
                    let mut f = good.clone();
                    let flags = (at + 1 < nf) as u8;
                    let tail = o::args(csum, Some(0x1234567), &parts[at]);
                    f[at].1 = match (at, req) {
                        (0, true) => o::call_req(flags, 9, (1, 2, 3, 0), "svc", &raw_hs(), &tail),
                        (0, false) => o::call_res(flags, 0, (1, 2, 3, 0), &raw_hs(), &tail),
                        _ => { let mut p = vec![flags]; p.extend(tail); p }
                    };
                    match run(&f).map_err(|p| format!("reader {}", p))? {
                        Ok(_) => Err("delivered a message whose checksum was not verified".into()),
                        Err(_) => Ok(()),
                    }
                });
            }
        }
        c.case(|| format!("frames after the last fragment, {} frames, round {}", nf, round), || {
            let mut f = good.clone();
            let mut p = vec![0u8];
            p.extend(o::args(0, None, &[b"extra".to_vec(), b"more".to_vec()]));
            f.push((if req { 0x13 } else { 0x14 }, p));
            let r = run(&f)?.map_err(|e| format!("refused: {}", e))?;
            ensure(r == want, || format!("frames after the last fragment changed the message: {:?}", sizes_of(&r)))
        });
        if c.done() { return; }
    }
}

fn one(req: bool, hs: &[(String, String)]) -> Frames {
    chunked_frames(req, &[vec![b"e".to_vec(), b"{}".to_vec(), b"{}".to_vec()]], hs)
}
/// Message types of every scheme which by themselves accept anything.
macro_rules! any_message {
    ($($name:ident $scheme:ident),*) => { $(
        #[derive(Debug)]
        struct $name(Vec<Bytes>);
        impl TryFrom<MessageArgs> for $name {
            type Error = tchannel_rs::errors::CodecError;
            fn try_from(a: MessageArgs) -> Result<Self, Self::Error> { Ok($name(a.args)) }
        }
        impl TryFrom<$name> for MessageArgs {
            type Error = tchannel_rs::errors::CodecError;
            fn try_from(m: $name) -> Result<Self, Self::Error> { Ok(MessageArgs::new(ArgSchemeValue::$scheme, m.0)) }
        }
        impl MessageWithArgs for $name {
            fn args_scheme() -> ArgSchemeValue { ArgSchemeValue::$scheme }
        }
        impl tchannel_rs::messages::Message for $name {}
    )* }
}
any_message!(AnyRaw Raw, AnyJson Json, AnyHttp Http, AnyThrift Thrift, AnySthrift StreamingThrift);

/// Whether a request and a response are accepted as a message of the scheme.
fn accepted(as_scheme: usize, req: &Frames, res: &Frames) -> (bool, bool) {
    macro_rules! both { ($t:ty) => { (block(read_request_msg::<$t>(input(req))).is_ok(), block(read_response_msg::<$t>(input(res))).is_ok()) } }
    match as_scheme {
        0 => both!(AnyRaw),
        1 => both!(AnyJson),
        2 => both!(AnyHttp),
        3 => both!(AnyThrift),
        _ => both!(AnySthrift),
    }
}

pub fn c09(c: &mut Ctx) {
    for declared in ["raw", "json", "http", "thrift", "sthrift", "", "RAW", "other"] {
        for s in 0..5 {
            for (frames, cn) in [(1usize, true), (2, true), (1, false), (2, false)] {
                c.case(|| format!("scheme {:?} in {} frames (caller name {}) read as a message of scheme {}", declared, frames, cn, scheme(s).1), || {
                    let chunks: Vec<Vec<Vec<u8>>> = if frames == 1 { vec![vec![b"e".to_vec(), b"{}".to_vec(), b"{}".to_vec()]] } else { vec![vec![b"e".to_vec(), b"{".to_vec()], vec![b"}".to_vec(), b"{}".to_vec()]] };
                    let mut hs = vec![("as".to_string(), declared.to_string())];
                    if cn { hs.push(("cn".to_string(), "x".to_string())); }
                    let (req, res) = (chunked_frames(true, &chunks, &hs), chunked_frames(false, &chunks, &hs));
                    let same = declared == scheme(s).1;
                    let got = no_panic(|| accepted(s, &req, &res))?;
                    ensure(got == (same, same), || format!("accepted {:?}", got))?;
                    let generic = block(read_request(input(&req)));
                    match generic {
                        Ok((_, a)) => ensure((a.arg_scheme == scheme(s).0) == same, || format!("read as {:?}", a.arg_scheme)),
                        Err(e) => ensure(!same, || format!("refused: {}", e)),
                    }?;
                    match block(read_response(input(&res))) {
                        Ok((_, _, a)) => ensure((a.arg_scheme == scheme(s).0) == same, || format!("response read as {:?}", a.arg_scheme)),
                        Err(e) => ensure(!same, || format!("response refused: {}", e)),
                    }
                });
            }
        }
    }
    let names = ["raw", "json", "http", "thrift", "sthrift"];
    let mut values: Vec<Option<String>> = vec![None];
    for n in names.iter().copied().chain(["", "RAW", "Raw", "raw ", "jso", "custom", "Custom", "Http", "sThrift", "sraw", "streamingthrift", "é"]) {
        values.push(Some(n.to_string()));
    }
    for v in &values {
        for other in [false, true] {
            for upper in [false, true] {
                let mut hs: Vec<(String, String)> = vec![];
                if let Some(v) = v { hs.push((if upper { "AS" } else { "as" }.to_string(), v.clone())); }
                if other { hs.push(("cn".into(), "raw".into())); hs.push(("asx".into(), "raw".into())); hs.push(("ArgScheme".into(), "raw".into())); }
                let declared = if upper { None } else { v.clone() };
                let known = declared.as_deref().map_or(false, |d| names.contains(&d));
                c.case(|| format!("headers {:?}: generic request", hs), || {
                    let r = no_panic(|| read_req(&one(true, &hs)))?;
                    ensure(r.is_ok() == known, || format!("{:?}", r.map(|x| x.1)))
                });
                c.case(|| format!("headers {:?}: raw request", hs), || {
                    let r = no_panic(|| block(read_request_msg::<RawMessage>(input(&one(true, &hs)))))?;
                    ensure(r.is_ok() == (declared.as_deref() == Some("raw")), || format!("{:?}", r.map_err(|e| e.to_string())))
                });
                c.case(|| format!("headers {:?}: json request", hs), || {
                    let r = no_panic(|| block(read_request_msg::<JsonMessage>(input(&one(true, &hs)))))?;
                    ensure(r.is_ok() == (declared.as_deref() == Some("json")), || format!("{:?}", r.map_err(|e| e.to_string())))
                });
                c.case(|| format!("headers {:?}: raw response", hs), || {
                    let r = no_panic(|| block(read_response_msg::<RawMessage>(input(&one(false, &hs)))))?;
                    ensure(r.is_ok() == (declared.as_deref() == Some("raw")), || format!("{:?}", r.map_err(|e| e.to_string())))
                });
                c.case(|| format!("headers {:?}: json response", hs), || {
                    let r = no_panic(|| block(read_response_msg::<JsonMessage>(input(&one(false, &hs)))))?;
                    ensure(r.is_ok() == (declared.as_deref() == Some("json")), || format!("{:?}", r.map_err(|e| e.to_string())))
                });
                c.case(|| format!("headers {:?}: generic response", hs), || {
                    let r = no_panic(|| read_res(&one(false, &hs)))?;
                    ensure(r.is_ok() == known, || format!("{:?}", r))
                });
            }
        }
        if c.done() { return; }
    }
    for s in 0..5 {
        for req in [true, false] {
            for service in ["", "svc", "a b é"] {
                for big in [0usize, 70000] {
                    c.case(|| format!("outgoing {} of scheme {} from service {:?}, body {}", if req { "request" } else { "response" }, scheme(s).1, service, big), || {
                        let args = [Bytes::from("e"), Bytes::from("{}"), pattern(big, 1)];
                        let f = fragment(if req { None } else { Some(ResponseCode::Ok) }, service, s, &args)?;
                        let call = o::parse_call(f[0].0, &f[0].1).ok_or("bad frame")?;
                        ensure(call.headers.get("as").map(|x| x.as_str()) == Some(scheme(s).1), || format!("headers {:?}", call.headers))?;
                        ensure(call.headers.contains_key("cn"), || format!("headers {:?}", call.headers))?;
                        if req {
                            let (_, a, h) = read_req(&f)?;
                            ensure(a.len() == 3 && h == call.headers, || "read back differs".into())
                        } else {
                            read_res(&f).map(|_| ())
                        }
                    });
                }
            }
        }
    }
    for (key, name) in [(TransportHeaderKey::ArgScheme, "as"), (TransportHeaderKey::ClaimAtStart, "cas"), (TransportHeaderKey::ClaimAtFinish, "caf"), (TransportHeaderKey::CallerName, "cn"), (TransportHeaderKey::RetryFlags, "re"), (TransportHeaderKey::SpeculativeExecution, "se"), (TransportHeaderKey::FailureDomain, "fd"), (TransportHeaderKey::ShardKey, "sk")] {
        c.case(|| format!("header name {}", name), || ensure(key.to_string() == name, || key.to_string()));
    }
}
