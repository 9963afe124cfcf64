//! C12, C13, C14, C18: connections.
#[cfg(feature = "hooks")]
use crate::codec::ty;
use crate::net::*;
use crate::oracle as o;
use crate::util::*;
#[cfg(feature = "hooks")]
use bb8::ManageConnection;
use bytes::Bytes;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;
use tchannel_rs::errors::{ConnectionError, HandlerError};
use tchannel_rs::messages::{MessageChannel, RawMessage};
#[cfg(feature = "hooks")]
use tchannel_rs::verif_hooks::*;
use tokio::net::TcpListener;
use tokio::sync::mpsc;

#[cfg(feature = "hooks")]
fn fr(id: u32, n: u32) -> TFrameId {
    TFrameId::new(id, TFrame::new(Type::CallRequestContinue, Bytes::from(n.to_be_bytes().to_vec())))
}
#[cfg(feature = "hooks")]
fn num(f: &TFrameId) -> u32 {
    u32::from_be_bytes(f.frame().payload()[..4].try_into().unwrap())
}
#[cfg(feature = "hooks")]
#[derive(Clone, Debug)]
enum Op { Register(u32), Deregister(u32), Dispatch(u32), Following(u32), DropInput(u32) }

/// Runs operations on the real dispatcher next to a model map.
#[cfg(feature = "hooks")]
async fn dispatcher(ops: &[Op]) -> Res {
    let d = FramesDispatcher::new(1000);
    // live: id -> (input, expected frame numbers), closed: inputs whose id was removed
    let mut live: HashMap<u32, (Option<FrameInput>, Vec<u32>)> = HashMap::new();
    let mut gone: Vec<(FrameInput, Vec<u32>)> = vec![];
    let mut dead: Vec<mpsc::Receiver<TFrameId>> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let i = i as u32;
        let at = |m: &str| format!("operation {} {:?}: {}", i, op, m);
        match op {
            Op::Register(id) => {
                let (tx, rx) = mpsc::channel(1000);
                let r = within(d.register(*id, tx)).await?;
                if live.contains_key(id) {
                    ensure(r.is_err(), || at("registered an id in use"))?;
                    dead.push(rx);
                } else {
                    ensure(r.is_ok(), || at("refused a free id"))?;
                    live.insert(*id, (Some(rx), vec![]));
                }
            }
            Op::Deregister(id) => {
                let r = within(d.deregister(id)).await?;
                ensure(r.is_some() == live.contains_key(id), || at("wrong result"))?;
                drop(r);
                if let Some((Some(rx), want)) = live.remove(id) { gone.push((rx, want)); }
            }
            Op::DropInput(id) => {
                if let Some((rx, want)) = live.get_mut(id) {
                    rx.take();
                    want.clear();
                }
            }
            Op::Dispatch(id) => {
                let r = within(d.dispatch(fr(*id, i))).await?;
                match live.get_mut(id) {
                    Some((Some(_), want)) => {
                        ensure(matches!(r, Ok(None)), || at("frame of a known id started a new exchange or failed"))?;
                        want.push(i);
                    }
                    Some((None, _)) => ensure(!matches!(r, Ok(Some(_))), || at("a second exchange for an id in use"))?,
                    None => match r {
                        Ok(Some(rx)) => { live.insert(*id, (Some(rx), vec![i])); }
                        _ => return Err(at("frame of a new id did not start an exchange")),
                    },
                }
            }
            Op::Following(id) => {
                let r = within(d.dispatch_following(fr(*id, i))).await?;
                match live.get_mut(id) {
                    Some((Some(_), want)) => {
                        ensure(r.is_ok(), || at("frame of a known id refused"))?;
                        want.push(i);
                    }
                    _ => ensure(r.is_err(), || at("no error for an unknown id"))?,
                }
            }
        }
    }
    for (id, (rx, want)) in live {
        if let Some(mut rx) = rx {
            let mut got = vec![];
            while let Ok(f) = rx.try_recv() {
                ensure(*f.id() == id, || format!("exchange {} received a frame of {}", id, f.id()))?;
                got.push(num(&f));
            }
            ensure(got == want, || format!("exchange {} received {:?} expected {:?}", id, got, want))?;
        }
    }
    for (mut rx, want) in gone {
        let mut got = vec![];
        while let Ok(f) = rx.try_recv() { got.push(num(&f)); }
        ensure(got == want, || format!("removed exchange received {:?} expected {:?}", got, want))?;
    }
    for mut rx in dead {
        ensure(rx.try_recv().is_err(), || "refused registration received a frame".into())?;
    }
    Ok(())
}

pub fn c12(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    dispatching(c);
    if c.done() { return; }
    // a client: a frame of an unknown id does not disturb others
    for bad in [0x04u8, 0xff, 0x14, 0xd1] {
        c.case(|| format!("client receives a frame {:#x} of an unknown id and out of order responses", bad), || {
            run(async move {
                let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
                let addr = l.local_addr().unwrap();
                let peer = tokio::spawn(async move {
                    let mut p = Raw::accept(&l).await?;
                    let mut calls = vec![];
                    for _ in 0..3 { calls.push(p.get().await?.ok_or("client closed")?); }
                    p.put(0xabcdef, bad, &error_payload(5, "x")).await?;
                    for (id, _, payload) in calls.iter().rev() {
                        let call = o::parse_call(3, payload).ok_or("bad request")?;
                        p.put(*id, 4, &res(0, 0, "raw", &call.chunks)).await?;
                    }
                    let _ = p.get_in(500).await;
                    Ok::<_, String>(())
                });
                let ch = client()?;
                let sub = ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                let call = |n: u32| { let sub = sub.clone(); async move {
                    let m = within(sub.send(RawMessage::new(format!("ep{}", n), "h".into(), n.to_string().into()), addr)).await?.map_err(|e| e.to_string())?;
                    ensure(*m.endpoint() == format!("ep{}", n) && m.body()[..] == *n.to_string().as_bytes(), || format!("call {} got {}", n, m))
                } };
                let (a, b, d) = tokio::join!(call(1), call(2), call(3));
                a?; b?; d?;
                peer.abort();
                Ok(())
            })
        });
    }
}

/// What a call leaves registered keeps its channel, with room for some frames, allocated.
#[cfg(feature = "hooks")]
fn dispatching(c: &mut Ctx) {
    // all sequences of length 4 over two ids
    let mk = |k: usize| {
        let id = if k % 2 == 0 { 7 } else { 8 };
        match k / 2 { 0 => Op::Register(id), 1 => Op::Deregister(id), 2 => Op::Dispatch(id), 3 => Op::Following(id), _ => Op::DropInput(id) }
    };
    let total = 10usize.pow(if c.thorough { 5 } else { 4 });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for k in 0..total {
        let mut ops = vec![];
        let mut k = k;
        for _ in 0..if c.thorough { 5 } else { 4 } { ops.push(mk(k % 10)); k /= 10; }
        c.case(|| format!("{:?}", ops), || rt.block_on(dispatcher(&ops)));
        if c.done() { return; }
    }
    {
        use crate::interleave::{explore, Op::*};
        for len in 1..=if c.thorough { 5 } else { 4 } { explore(c, &[Register, Deregister, Dispatch, Following], len); }
    }
    let mut rng = c.rng(12);
    let n = if c.thorough { 1000000 } else { 20000 };
    for _ in 0..n {
        if !c.more() { break; }
        let ids: Vec<u32> = vec![0, 1, 2, 0xffffffff, 0x80000000, 65536];
        let ops: Vec<Op> = (0..rng.below(60)).map(|_| { let id = rng.pick(&ids); match rng.below(12) { 0..=1 => Op::Register(id), 2..=3 => Op::Deregister(id), 4..=6 => Op::Dispatch(id), 7..=10 => Op::Following(id), _ => Op::DropInput(id) } }).collect();
        c.case(|| format!("random {:?}", ops), || rt.block_on(dispatcher(&ops)));
    }
    // concurrent: several ids registered and fed from several tasks, small buffers
    for round in 0..if c.thorough { 400 } else { 20 } {
        c.case(|| format!("concurrent dispatch round {}", round), || {
            run(async move {
                let d = Arc::new(FramesDispatcher::new(2));
                let mut tasks = vec![];
                for id in 0..8u32 {
                    let d = d.clone();
                    tasks.push(tokio::spawn(async move {
                        let (tx, mut rx) = mpsc::channel(2);
                        d.register(id, tx).await.map_err(|e| e.to_string())?;
                        let d2 = d.clone();
                        let feeder = tokio::spawn(async move {
                            for n in 0..200 { d2.dispatch_following(fr(id, n)).await.map_err(|e| e.to_string())?; }
                            Ok::<_, String>(())
                        });
                        for n in 0..200 {
                            let f = rx.recv().await.ok_or("input closed")?;
                            ensure(*f.id() == id && num(&f) == n, || format!("exchange {} expected {} got {} of {}", id, n, num(&f), f.id()))?;
                        }
                        feeder.await.map_err(|e| e.to_string())??;
                        ensure(d.deregister(&id).await.is_some(), || "own registration is gone".into())
                    }));
                }
                for t in tasks { within(t).await?.map_err(|e| e.to_string())??; }
                Ok(())
            })
        });
    }
    // buffers that are full: nothing is lost and nothing changes its order, for both ways of dispatching
    for buffer in [1usize, 2, 5] {
        for how in 0..3 {
            for wait in [0usize, 1, 7] {
                c.case(|| format!("60 frames of each of 3 exchanges through buffers of {}, {}, readers pausing {}", buffer, ["dispatch", "dispatch of following frames", "both"][how], wait), || {
                    run(async move {
                        let d = Arc::new(FramesDispatcher::new(buffer));
                        let mut readers = vec![];
                        for id in 0..3u32 {
                            let mut rx = within(d.dispatch(fr(id, 0))).await?.map_err(|e| e.to_string())?.ok_or("no new exchange")?;
                            readers.push(tokio::spawn(async move {
                                for n in 0..60 {
                                    for _ in 0..wait { tokio::task::yield_now().await; }
                                    let f = within(rx.recv()).await?.ok_or("input closed")?;
                                    ensure(*f.id() == id && num(&f) == n, || format!("exchange {} expected frame {} got {} of {}", id, n, num(&f), f.id()))?;
                                }
                                Ok::<_, String>(rx)
                            }));
                        }
                        for n in 1..60u32 {
                            for id in 0..3u32 {
                                if how == 0 || how == 2 && n % 2 == 0 {
                                    let r = within(d.dispatch(fr(id, n))).await?.map_err(|e| e.to_string())?;
                                    ensure(r.is_none(), || format!("frame {} of {} started another exchange", n, id))?;
                                } else {
                                    within(d.dispatch_following(fr(id, n))).await?.map_err(|e| e.to_string())?;
                                }
                            }
                        }
                        for t in readers { t.await.map_err(|e| e.to_string())??; }
                        Ok(())
                    })
                });
            }
        }
        if c.done() { return; }
    }
}
pub fn leftovers(c: &mut Ctx) {
    for (what, service, ep, ok) in [("are answered", "svc", "ep", true), ("are refused by the server", "svc", "nope", false), ("name an unknown service", "none", "ep", false), ("fail in the handler", "svc", "gen", false), ("cannot be sent", "", "ep", false), ("are answered under another scheme", "svc", "json", false)] {
        c.case(|| format!("what is left of calls that {}", what), || {
            run(async {
                let server = Srv::start(|_| {}).await?;
                let ssub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                ssub.register("ep", crate::msg::H::new(crate::msg::Outcome::Ok)).await.map_err(|e| e.to_string())?;
                ssub.register("gen", crate::msg::H::new(crate::msg::Outcome::General("g".into()))).await.map_err(|e| e.to_string())?;
                ssub.register("json", crate::msg::HJ(true)).await.map_err(|e| e.to_string())?;
                let cl = client()?;
                let sub = cl.subchannel(if service.is_empty() { "s".repeat(300) } else { service.to_string() }).await.map_err(|e| e.to_string())?;
                // handlers of these tests keep what they were called with
                let mut held = vec![];
                let calls = 300usize;
                for round in 0..4 {
                    for _ in 0..calls {
                        let r = within(sub.send(RawMessage::new(ep.into(), "h".into(), "b".into()), server.addr)).await?.map_err(|e| e.to_string());
                        ensure(r.is_ok() == ok, || format!("call in round {}: {:?}", round, r.map(|_| ())))?;
                    }
                    tokio::time::sleep(Duration::from_millis(30)).await;
                    held.push(live());
                }
                let growth = (held[3] - held[1]) / (2 * calls as isize);
                ensure(growth < 700, || format!("each call left {} bytes behind", growth))
            })
        });
    }
}
#[cfg(feature = "hooks")]
fn exchanges(c: &mut Ctx) {
    {
        use crate::interleave::{explore, Op::*};
        for len in 1..=if c.thorough { 6 } else { 4 } { explore(c, &[Register, Deregister, Following], len); }
    }
    let mut rng = c.rng(13);
    let n = if c.thorough { 20000 } else { 300 };
    for round in 0..n {
        if round > 3 && !c.more() { break; }
        let k = 1 + rng.below(60);
        let par = rng.below(2) == 0;
        let seed = rng.next();
        c.case(|| format!("{} exchanges, parallel {}, round {}", k, par, round), || {
            run(async move {
                let (tx, mut rx) = mpsc::channel(10000);
                let conn = Arc::new(Connection::new(tx, 4));
                let mut tasks = vec![];
                for i in 0..k {
                    let conn = conn.clone();
                    let job = async move {
                        let (input, out) = conn.new_frames_io().await.map_err(|e| e.to_string())?;
                        for j in 0..5u32 {
                            out.send(TFrame::new(Type::CallRequest, Bytes::from((i as u32 * 100 + j).to_be_bytes().to_vec()))).await.map_err(|e| e.to_string())?;
                            tokio::task::yield_now().await;
                        }
                        Ok::<_, String>((input, out))
                    };
                    if par { tasks.push(tokio::spawn(job)); } else { let r = job.await; tasks.push(tokio::spawn(async { r })); }
                }
                let mut open = vec![];
                for t in tasks { open.push(within(t).await?.map_err(|e| e.to_string())??); }
                let mut by_id: HashMap<u32, Vec<u32>> = HashMap::new();
                let mut owner: HashMap<u32, u32> = HashMap::new();
                while let Ok(f) = rx.try_recv() {
                    let v = num(&f);
                    let o = owner.entry(*f.id()).or_insert(v / 100);
                    ensure(*o == v / 100, || format!("id {} is used by exchanges {} and {}", f.id(), o, v / 100))?;
                    by_id.entry(*f.id()).or_default().push(v % 100);
                }
                ensure(by_id.len() == k, || format!("{} distinct ids for {} exchanges", by_id.len(), k))?;
                for (id, seq) in &by_id { ensure(*seq == vec![0, 1, 2, 3, 4], || format!("id {} sent {:?}", id, seq))?; }
                // closing one exchange releases its id only: afterwards the others still end only by their own close
                let mut rng = Rng::new(seed);
                let mut closed = HashSet::new();
                for (i, (_, out)) in open.iter().enumerate() {
                    if rng.below(2) == 0 { out.close().await; closed.insert(i); }
                }
                for (i, (input, _)) in open.iter_mut().enumerate() {
                    let ended = matches!(input.try_recv(), Err(mpsc::error::TryRecvError::Disconnected));
                    ensure(ended == closed.contains(&i), || format!("exchange {}: closed {} but ended {}", i, closed.contains(&i), ended))?;
                }
                Ok(())
            })
        });
    }
    // many exchanges while one stays open: its id is not given to another one
    c.case(|| "one pending exchange and 70000 others".to_string(), || {
        run(async {
            let (tx, _rx) = mpsc::channel(10);
            let conn = Connection::new(tx, 1);
            let (_, first) = conn.new_frames_io().await.map_err(|e| e.to_string())?;
            let _third = { conn.new_frames_io().await.map_err(|e| e.to_string())?.1.close().await; conn.new_frames_io().await.map_err(|e| e.to_string())? };
            for i in 0..70000 {
                let (_, out) = conn.new_frames_io().await.map_err(|e| format!("exchange {} refused: {}", i, e))?;
                out.close().await;
            }
            first.close().await;
            Ok(())
        })
    });
    // exchanges opened by several threads at once
    for round in 0..if c.thorough { 200 } else { 8 } {
        c.case(|| format!("exchanges opened by 8 threads, round {}", round), || {
            let (tx, mut rx) = mpsc::channel(100000);
            let conn = Arc::new(Connection::new(tx, 1));
            let threads: Vec<_> = (0..8).map(|_| {
                let conn = conn.clone();
                std::thread::spawn(move || {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    rt.block_on(async move {
                        let mut open = vec![];
                        for _ in 0..1500 { open.push(conn.new_frames_io().await.map_err(|e| e.to_string())?); }
                        for (_, out) in &open { out.send(TFrame::new(Type::PingRequest, Bytes::new())).await.map_err(|e| e.to_string())?; }
                        Ok::<_, String>(open)
                    })
                })
            }).collect();
            let mut open = vec![];
            for t in threads { open.extend(t.join().map_err(|_| "panicked".to_string())?.map_err(|e| format!("exchange refused: {}", e))?); }
            let mut ids = HashSet::new();
            while let Ok(f) = rx.try_recv() { ensure(ids.insert(*f.id()), || format!("id {} given to two exchanges", f.id()))?; }
            ensure(ids.len() == 8 * 1500, || format!("{} ids for {} exchanges", ids.len(), 8 * 1500))
        });
    }
    // frames reach the socket in the order of sending, whatever the size of the buffer
    for buffer in [1usize, 3, 100, 1000] {
        c.case(|| format!("frames of 4 exchanges on the wire, buffer of {}", buffer), || {
            run(async move {
                let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
                let addr = l.local_addr().unwrap();
                let conn = Arc::new(Connection::connect(tokio::net::TcpStream::connect(addr).await.map_err(|e| e.to_string())?, buffer).await.map_err(|e| e.to_string())?);
                let mut p = Raw::new(l.accept().await.map_err(|e| e.to_string())?.0);
                let mut tasks = vec![];
                for e in 0..4u32 {
                    let conn = conn.clone();
                    tasks.push(tokio::spawn(async move {
                        let (input, out) = conn.new_frames_io().await.map_err(|e| e.to_string())?;
                        for j in 0..300u32 {
                            out.send(TFrame::new(Type::CallRequestContinue, Bytes::from((e * 1000 + j).to_be_bytes().to_vec()))).await.map_err(|e| e.to_string())?;
                        }
                        Ok::<_, String>((input, out))
                    }));
                }
                let mut next: HashMap<u32, u32> = HashMap::new();
                for _ in 0..4 * 300 {
                    let (id, t, b) = p.get().await?.ok_or("the connection was closed")?;
                    ensure(t == 0x13 && b.len() == 4, || format!("frame {:#x} of {} bytes", t, b.len()))?;
                    let v = u32::from_be_bytes(b[..4].try_into().unwrap());
                    let want = *next.entry(id).or_insert(v / 1000 * 1000);
                    ensure(v == want, || format!("id {}: frame {} where {} was sent", id, v, want))?;
                    next.insert(id, v + 1);
                }
                ensure(next.len() == 4, || format!("{} ids for 4 exchanges", next.len()))?;
                for t in tasks { within(t).await?.map_err(|e| e.to_string())??; }
                Ok(())
            })
        });
        if c.done() { return; }
    }
    // send_one: request and response share the id, and the id is released
    c.case(|| "single frame exchanges".to_string(), || {
        run(async {
            let (tx, mut rx) = mpsc::channel(100);
            let conn = Arc::new(Connection::new(tx, 4));
            let mut ids = HashSet::new();
            for _ in 0..20 {
                let c2 = conn.clone();
                let t = tokio::spawn(async move { tokio::time::timeout(Duration::from_millis(100), c2.send_one(TFrame::new(Type::PingRequest, Bytes::new()))).await });
                let f = within(rx.recv()).await?.ok_or("closed")?;
                ensure(ids.insert(*f.id()), || format!("id {} reused while pending", f.id()))?;
                t.abort();
            }
            Ok(())
        })
    });
}
pub fn c13(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    exchanges(c);
    if c.done() { return; }
    #[allow(unused_variables)]
    let mut rng = c.rng(13);
    // responses of many frames
    for (buffer, frames) in [(100usize, 1100usize), (1, 120), (2, 120), (5, 200)] {
        c.case(|| format!("responses of {}, 3 and {} frames, buffers of {}", frames, frames, buffer), || {
            run(async {
                fn byte(i: usize) -> u8 { (i ^ i >> 8 ^ i >> 16) as u8 ^ (i / 65000) as u8 }
                #[derive(Debug)]
                struct Big(usize);
                impl tchannel_rs::handler::RequestHandler for Big {
                    type REQ = RawMessage;
                    type RES = RawMessage;
                    fn handle(&mut self, r: RawMessage) -> tchannel_rs::handler::HandlerResult<RawMessage> { Ok(RawMessage::new(r.endpoint().clone(), r.header().clone(), (0..self.0).map(byte).collect::<Vec<u8>>().into())) }
                }
                let server = Srv::start(|c| c.buffer = buffer).await?;
                let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                sub.register("big", Big(frames * 65000)).await.map_err(|e| e.to_string())?;
                sub.register("small", Big(3 * 60000)).await.map_err(|e| e.to_string())?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(9).await?;
                for (id, ep) in [(70u32, "big"), (71, "small"), (72, "big")] { p.put(id, 3, &req(0, "svc", "raw", &[ep.as_bytes().to_vec(), vec![], vec![]])).await?; }
                let mut left = HashSet::from([70u32, 71, 72]);
                let mut got: HashMap<u32, usize> = HashMap::new();
                while !left.is_empty() {
                    let (id, t, b) = p.get().await?.ok_or("server closed the connection")?;
                    ensure(left.contains(&id), || format!("frame {:#x} under id {}, which is unknown or answered", t, id))?;
                    let first = !got.contains_key(&id);
                    ensure(t == if first { 4 } else { 0x14 }, || format!("frame of type {:#x} for id {}", t, id))?;
                    // the last chunk of each frame is the body
                    let chunks = if first { o::parse_call(4, &b).ok_or("bad response")?.chunks } else { o::parse_chunks(&mut o::Cur(b.get(2..).ok_or("bad continuation")?)).ok_or("bad continuation")? };
                    let at = got.entry(id).or_insert(0);
                    let body = chunks.last().cloned().unwrap_or_default();
                    ensure(body.iter().enumerate().all(|(i, x)| *x == byte(*at + i)), || format!("id {}: a frame with other content than the one at byte {} of the body", id, *at))?;
                    *at += body.len();
                    if b[0] & 1 == 0 {
                        left.remove(&id);
                        ensure(*at == if id == 71 { 3 * 60000 } else { frames * 65000 }, || format!("id {} ended after {} bytes", id, *at))?;
                    }
                }
                Ok(())
            })
        });
        if c.done() { return; }
    }
    // a frame that cannot be written does not take others with it
    #[cfg(feature = "hooks")]
    for buffer in [1usize, 10, 100] {
        c.case(|| format!("frames beside some too long ones, buffer of {}", buffer), || {
            run(async move {
                let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
                let addr = l.local_addr().unwrap();
                let conn = Connection::connect(tokio::net::TcpStream::connect(addr).await.map_err(|e| e.to_string())?, buffer).await.map_err(|e| e.to_string())?;
                let mut p = Raw::new(l.accept().await.map_err(|e| e.to_string())?.0);
                let (_a, bad) = conn.new_frames_io().await.map_err(|e| e.to_string())?;
                let (_b, good) = conn.new_frames_io().await.map_err(|e| e.to_string())?;
                let sending = tokio::spawn(async move {
                    for j in 0..60u32 {
                        if j % 5 == 3 { bad.send(TFrame::new(Type::CallRequestContinue, Bytes::from(vec![0u8; 65520 + j as usize]))).await.map_err(|e| e.to_string())?; }
                        good.send(TFrame::new(Type::CallRequestContinue, Bytes::from(j.to_be_bytes().to_vec()))).await.map_err(|e| e.to_string())?;
                    }
                    Ok::<_, String>((bad, good))
                });
                for j in 0..60u32 {
                    let (_, _, b) = p.get().await.map_err(|e| format!("frame {}: {}", j, e))?.ok_or("the connection was closed")?;
                    ensure(b == j.to_be_bytes(), || format!("frame {} where {} was sent", brief(&b), j))?;
                }
                within(sending).await?.map_err(|e| e.to_string())??;
                Ok(())
            })
        });
    }
    // calls give their ids back on both sides, also the ones that fail: nothing is left of them
    leftovers(c);
    // server answers under the id of the request, whatever ids and interleaving the client uses
    let n = if c.thorough { 1000 } else { 30 };
    for round in 0..n {
        let mut ids: Vec<u32> = vec![1, 0, 0xffffffff, 77, 0x80000000, 65536, 5];
        for i in 0..ids.len() { let j = rng.below(i + 1); ids.swap(i, j); }
        let seed = rng.next();
        c.case(|| format!("server answers ids {:?}, round {}", ids, round), || {
            let ids = ids.clone();
            run(async move {
                let mut rng = Rng::new(seed);
                let server = Srv::start(|c| c.tasks = 16).await?;
                let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                sub.register("ep", crate::msg::H::new(crate::msg::Outcome::Ok)).await.map_err(|e| e.to_string())?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(9).await?;
                // each request in 1..4 frames, frames of different requests interleaved
                let mut queues: Vec<Vec<(u32, u8, Vec<u8>)>> = vec![];
                for (i, id) in ids.iter().enumerate() {
                    let bad = i == 2;
                    let nf = 1 + rng.below(4);
                    let mut q = vec![];
                    let name = if bad { b"missing".to_vec() } else { b"ep".to_vec() };
                    q.push((*id, 3u8, req((nf > 1) as u8, "svc", "raw", &[name, format!("h{}", id).into_bytes(), b"x".to_vec()])));
                    for k in 1..nf { q.push((*id, 0x13, cont((k + 1 < nf) as u8, &[b"y".to_vec()]))); }
                    q.reverse();
                    queues.push(q);
                }
                while queues.iter().any(|q| !q.is_empty()) {
                    let i = rng.below(queues.len());
                    if let Some((id, t, b)) = queues[i].pop() { p.put(id, t, &b).await?; }
                }
                let mut seen = HashSet::new();
                for _ in 0..ids.len() {
                    let (id, t, b) = p.get().await?.ok_or("server closed the connection")?;
                    ensure(ids.contains(&id) && seen.insert(id), || format!("answer under id {}", id))?;
                    if id == ids[2] {
                        ensure(t == 0xff, || format!("failing request answered by {:#x}", t))?;
                    } else {
                        ensure(t == 4, || format!("answer of type {:#x}", t))?;
                        let call = o::parse_call(4, &b).ok_or("bad response")?;
                        ensure(call.chunks[1] == format!("h{}", id).into_bytes(), || format!("id {} got the response of {:?}", id, String::from_utf8_lossy(&call.chunks[1])))?;
                    }
                }
                Ok(())
            })
        });
        if c.done() { return; }
    }
}

#[derive(Clone, Debug)]
enum Reply { Frame(u8, Vec<u8>), Bytes(Vec<u8>), Close, Silent }
fn replies() -> Vec<(Reply, &'static str, bool)> {
    let mut v = vec![
        (Reply::Frame(2, vec![0, 2, 0, 0]), "init response version 2", true),
        (Reply::Frame(2, { let mut p = vec![0, 2]; p.extend(o::headers2(&[("host_port".into(), "1.2.3.4:5".into()), ("process_name".into(), "x".into())])); p }), "init response version 2 with headers", true),
        (Reply::Frame(2, vec![0, 2]), "init response without headers field", false),
        (Reply::Frame(2, vec![0, 2, 0]), "init response cut in the header count", false),
        (Reply::Frame(2, vec![0, 2, 0, 1, 0, 1]), "init response cut in a header", false),
        (Reply::Frame(2, vec![]), "empty init response", false),
        (Reply::Frame(0xff, error_payload(8, "go away")), "error frame", false),
        (Reply::Frame(0xff, vec![1, 2]), "malformed error frame", false),
        (Reply::Bytes(o::frame(0, 0x77, &[0, 2, 0, 0])), "unknown frame type", false),
        (Reply::Bytes(vec![0, 3, 1, 1]), "bad frame size", false),
        (Reply::Bytes(vec![0, 20]), "half a frame then end", false),
        (Reply::Close, "connection closed", false),
    ];
    for ver in [0u16, 1, 3, 4, 258, 512, 513, 65535] {
        v.push((Reply::Frame(2, [&ver.to_be_bytes()[..], &[0, 0]].concat()), "other version", false));
    }
    for t in [1u8, 3, 4, 0x13, 0x14, 0xc0, 0xc1, 0xd0, 0xd1] {
        v.push((Reply::Frame(t, vec![0, 2, 0, 0]), "frame of another type", false));
    }
    v
}
pub fn c14(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    for (reply, what, good) in replies() {
        c.case(|| format!("client handshake answered by {} {:?}", what, reply), || {
            let reply = reply.clone();
            run(async move {
                let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
                let addr = l.local_addr().unwrap();
                let r2 = reply.clone();
                let peer = tokio::spawn(async move {
                    let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
                    let mut p = Raw::new(s);
                    let (id, t, b) = p.get().await?.ok_or("client closed")?;
                    ensure(t == 1 && b.len() >= 4 && b[..2] == [0, 2], || format!("client began with type {:#x} {:?}", t, b))?;
                    match r2 {
                        Reply::Frame(t, b) => {
                            p.put(id, t, &b).await?;
                            if !good { let _ = p.put(id, 2, &[0, 2, 0, 0]).await; }
                        }
                        Reply::Bytes(b) => { use tokio::io::AsyncWriteExt; p.s.write_all(&b).await.map_err(|e| e.to_string())?; p.s.shutdown().await.ok(); }
                        Reply::Close => drop(p.s),
                        Reply::Silent => tokio::time::sleep(Duration::from_secs(60)).await,
                    }
                    if let Reply::Close = reply { return Ok(()); }
                    tokio::time::sleep(Duration::from_secs(5)).await;
                    Ok::<_, String>(())
                });
                let m = ConnectionManager::verif_new(addr, 10);
                let r = within(m.connect()).await?;
                let mut peer = peer;
                match tokio::time::timeout(Duration::from_millis(1), &mut peer).await {
                    Ok(done) => done.map_err(|e| e.to_string())??,
                    Err(_) => peer.abort(),
                }
                match r {
                    Ok(_) => ensure(good, || "connection accepted".into()),
                    Err(e) => {
                        ensure(!good, || format!("good handshake refused: {}", e))?;
                        if what == "error frame" {
                            match e {
                                ConnectionError::MessageErrorId(m, _) => ensure(m == ErrorMsg::new(ErrorCode::Unhealthy, Tracing::default(), "go away".into()), || format!("reported {:?}", m))?,
                                other => return Err(format!("error frame reported as {:?}", other)),
                            }
                        }
                        Ok(())
                    }
                }
            })
        });
    }
    // the same from outside: a call is sent after a good handshake only
    for (reply, what, good) in replies() {
        if let Reply::Silent = reply { continue; }
        c.case(|| format!("call after a handshake answered by {} {:?}", what, reply), || {
            let reply = reply.clone();
            run(async move {
                let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
                let addr = l.local_addr().unwrap();
                let ch = client()?;
                let sub = ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                let call = tokio::spawn(async move { sub.send(RawMessage::new("ep".into(), "h".into(), "b".into()), addr).await.map(|_| ()).map_err(|e| e.to_string()) });
                let (s, _) = within(l.accept()).await?.map_err(|e| e.to_string())?;
                let mut p = Raw::new(s);
                let (id, _, _) = p.get().await?.ok_or("client closed")?;
                match reply {
                    Reply::Frame(t, b) => p.put(id, t, &b).await?,
                    Reply::Bytes(b) => { use tokio::io::AsyncWriteExt; p.s.write_all(&b).await.map_err(|e| e.to_string())?; p.s.shutdown().await.ok(); }
                    _ => { use tokio::io::AsyncWriteExt; p.s.shutdown().await.ok(); }
                }
                let next = p.get_in(if good { 5000 } else { 100 }).await;
                call.abort();
                let called = matches!(next, Ok(Some((_, 3, _))));
                ensure(called == good, || format!("next frame of the client: {:?}", next.map(|f| f.map(|f| f.1))))
            })
        });
    }
    // server side
    let mut firsts: Vec<(u8, Vec<u8>, &str, bool)> = vec![
        (1, vec![0, 2, 0, 0], "init request version 2", true),
        (1, { let mut p = vec![0, 2]; p.extend(o::headers2(&[("host_port".into(), "0.0.0.0:0".into()), ("process_name".into(), "p".into())])); p }, "init request with headers", true),
        (1, vec![0, 2], "cut init request", false),
        (1, vec![], "empty init request", false),
        (1, vec![0, 2, 0, 9], "init request with missing headers", false),
        (0xff, error_payload(5, "hm"), "error frame", false),
        (0x77, vec![0, 2, 0, 0], "unknown frame", false),
    ];
    for ver in [0u16, 1, 3, 258, 512, 65535] { firsts.push((1, [&ver.to_be_bytes()[..], &[0, 0]].concat(), "other version", false)); }
    for t in [2u8, 4, 0x13, 0x14, 0xc0, 0xc1, 0xd0, 0xd1] {
        firsts.push((t, vec![0, 2, 0, 0], "frame of another type", false));
        firsts.push((t, vec![], "frame of another type without payload", false));
    }
    firsts.push((0xff, vec![], "error frame without payload", false));
    firsts.push((3, req(0, "svc", "raw", &[b"ep".to_vec(), vec![], vec![]]), "call without handshake", false));
    for (t, b, what, good) in firsts {
        for id in [0u32, 1, 0xfffffffe, 0x12345678] {
            if !good && id != 1 { continue; }
            c.case(|| format!("server receives first {} ({:#x} {}) id {}", what, t, brief(&b), id), || {
                run(async {
                    let server = Srv::start(|_| {}).await?;
                    let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                    let hd = crate::msg::H::new(crate::msg::Outcome::Ok);
                    let calls = hd.calls.clone();
                    sub.register("ep", hd).await.map_err(|e| e.to_string())?;
                    let mut p = Raw::connect(server.addr).await?;
                    p.put(id, t, &b).await?;
                    // a handshake that comes too late
                    if !good { let _ = p.put(id, 1, &[0, 2, 0, 0]).await; }
                    let _ = p.put(5, 3, &req(0, "svc", "raw", &[b"ep".to_vec(), b"h".to_vec(), b"b".to_vec()])).await;
                    let mut got = vec![];
                    let want = if good { 2 } else { 1 };
                    while got.len() < want {
                        match p.get().await? { Some(f) => got.push(f), None => break }
                    }
                    if good {
                        ensure(got.len() == 2, || format!("server answered {:?}", got))?;
                        let init = &got[0];
                        ensure(init.0 == id && init.1 == 2, || format!("init answered by {:?}", init))?;
                        ensure(init.2.len() >= 4 && init.2[..2] == [0, 2], || format!("init response payload {:?}", init.2))?;
                        let mut cur = o::Cur(&init.2[2..]);
                        let n = cur.u16().unwrap();
                        for _ in 0..n { cur.s2().ok_or("bad header")?; cur.s2().ok_or("bad header")?; }
                        ensure(got[1].0 == 5 && got[1].1 == 4, || format!("call answered by {:?}", got[1]))?;
                        ensure(calls.lock().unwrap().len() == 1, || "handler not called".into())
                    } else {
                        ensure(got.iter().all(|f| f.1 != 4 && f.1 != 2), || format!("server went on: {:?}", got))?;
                        ensure(calls.lock().unwrap().is_empty(), || "request handled without a handshake".into())
                    }
                })
            });
        }
        if c.done() { return; }
    }
}

pub fn c18(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    {
        use crate::interleave::{explore, Op::*};
        for len in 1..=if c.thorough { 5 } else { 4 } { explore(c, &[Close, Register, Deregister, Following], len); }
    }
    // what arrives, and what the peer does with the socket then
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Then { Close, Stay, Half, Reset }
    let valid = [0x01u8, 0x02, 0x03, 0x04, 0x13, 0x14, 0xc0, 0xc1, 0xd0, 0xd1, 0xff];
    let mut ends: Vec<(String, Option<Vec<u8>>, Then)> = vec![
        ("connection closed".into(), None, Then::Close),
        ("connection half closed".into(), None, Then::Half),
        ("connection reset".into(), None, Then::Reset),
        ("half a frame".into(), Some(vec![0, 30, 4]), Then::Close),
        ("half a frame".into(), Some(vec![0, 30, 4]), Then::Half),
        ("half a frame".into(), Some(vec![0, 30, 4]), Then::Reset),
        ("one byte".into(), Some(vec![0]), Then::Close),
        ("half a response".into(), Some(vec![]), Then::Close),
        ("half a response".into(), Some(vec![]), Then::Half),
        ("half a response".into(), Some(vec![]), Then::Reset),
    ];
    for t in [0x55u8, 0x00, 0x05, 0x12, 0xfe] {
        let mut with_payload = o::frame(1, t, &[7; 40]);
        with_payload.extend(o::frame(2, 0xd1, &[]));
        for then in [Then::Close, Then::Stay] {
            ends.push((format!("unknown frame type {:#x}", t), Some(o::frame(1, t, &[])), then));
            ends.push((format!("unknown frame type {:#x} with more", t), Some(with_payload.clone()), then));
        }
    }
    for size in [0u16, 1, 3, 15] {
        let mut b = o::frame(1, 4, &[]);
        b[..2].copy_from_slice(&size.to_be_bytes());
        ends.push((format!("frame size {}", size), Some(b.clone()), Then::Close));
        ends.push((format!("frame size {}", size), Some(b), Then::Stay));
    }
    // every other unknown type
    for t in 0..=255u8 {
        if valid.contains(&t) { continue; }
        if !c.thorough && t % 16 != 6 { continue; }
        ends.push((format!("unknown frame type {:#x}", t), Some(o::frame(1, t, &[1, 2, 3])), Then::Stay));
    }
    for (what, bytes, then) in ends {
        for pending in [1usize, 3] {
            for big in [false, true] {
                if !c.thorough && big && pending == 1 { continue; }
                c.case(|| format!("{} with {} pending calls, large {}, then {:?}", what, pending, big, then), || {
                    let bytes = bytes.clone();
                    run(async move {
                        let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
                        let addr = l.local_addr().unwrap();
                        let peer = tokio::spawn(async move {
                            use tokio::io::AsyncWriteExt;
                            let mut p = Raw::accept(&l).await?;
                            let mut firsts = vec![];
                            while firsts.len() < pending {
                                let f = p.get().await?.ok_or("client closed")?;
                                if f.1 == 3 { firsts.push(f.0); }
                            }
                            match bytes {
                                None => {}
                                Some(b) if b.is_empty() => {
                                    p.put(firsts[0], 4, &res(1, 0, "raw", &[b"ep".to_vec(), b"h".to_vec()])).await?;
                                }
                                Some(b) => p.s.write_all(&b).await.map_err(|e| e.to_string())?,
                            }
                            // what is still read keeps the client's writer from filling the socket
                            let mut keep = None;
                            match then {
                                Then::Close => drop(p),
                                Then::Reset => { #[allow(deprecated)] let _ = p.s.set_linger(Some(Duration::from_secs(0))); drop(p) }
                                Then::Half => { p.s.shutdown().await.map_err(|e| e.to_string())?; keep = Some(p) }
                                Then::Stay => keep = Some(p),
                            }
                            if let Some(mut p) = keep { tokio::spawn(async move { use tokio::io::AsyncReadExt; let mut b = [0u8; 65536]; while matches!(p.s.read(&mut b).await, Ok(n) if n > 0) {} tokio::time::sleep(Duration::from_secs(60)).await; drop(p) }); }
                            // later calls come on a new connection and are answered
                            let mut p = Raw::accept(&l).await?;
                            let (id, t, b) = p.get().await?.ok_or("client closed")?;
                            ensure(t == 3, || "not a call".into())?;
                            let call = o::parse_call(3, &b).ok_or("bad request")?;
                            p.put(id, 4, &res(0, 0, "raw", &call.chunks)).await?;
                            let _ = p.get_in(3000).await;
                            Ok::<_, String>(())
                        });
                        let ch = std::sync::Arc::new(tchannel_rs::TChannel::new(config(&Conf { buffer: if pending == 1 || big { 100 } else { 1 }, ..conf() })).map_err(|e| e.to_string())?);
                        let sub = ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                        let mut tasks = vec![];
                        for i in 0..pending {
                            let (ch, sub) = (ch.clone(), sub.clone());
                            let body = if big { vec![1u8; 300000] } else { vec![1] };
                            tasks.push(tokio::spawn(async move { within_pool(&ch, addr, sub.send(RawMessage::new(format!("ep{}", i), "h".into(), body.into()), addr)).await }));
                        }
                        for t in tasks {
                            match t.await.map_err(|e| e.to_string())?.map_err(|_| "a pending call never ended".to_string())? {
                                Ok(m) => return Err(format!("a pending call succeeded with {}", m)),
                                Err(HandlerError::InternalError(_)) => {}
                                Err(e) => return Err(format!("a pending call ended with {}", e)),
                            }
                        }
                        // at most a few attempts until the client replaced the connection, each of them ends
                        for attempt in 0..6 {
                            match within_pool(&ch, addr, sub.send(RawMessage::new("again".into(), "h".into(), "b".into()), addr)).await.map_err(|_| format!("later call {} never ended", attempt))? {
                                Ok(m) => { peer.abort(); return ensure(m.endpoint() == "again", || format!("{}", m)); }
                                Err(_) => tokio::time::sleep(Duration::from_millis(50)).await,
                            }
                        }
                        Err("the lost connection was never replaced".into())
                    })
                });
                if c.done() { return; }
            }
        }
    }
    #[cfg(feature = "hooks")]
    c.case(|| "exchange opened after the connection ended".to_string(), || {
        run(async {
            let d = FramesDispatcher::new(10);
            let (tx, mut rx) = mpsc::channel(10);
            d.register(1, tx).await.map_err(|e| e.to_string())?;
            let (tx, mut rx2) = mpsc::channel(10);
            d.register(2, tx).await.map_err(|e| e.to_string())?;
            d.close().await;
            ensure(within(rx.recv()).await?.is_none() && within(rx2.recv()).await?.is_none(), || "pending exchange still open".into())?;
            let (tx, _rx) = mpsc::channel(10);
            ensure(d.register(3, tx).await.is_err(), || "registered on a lost connection".into())?;
            ensure(d.is_closed(), || "not closed".into())
        })
    });
    // a peer that answers with more frames than were asked for and then goes away
    #[cfg(feature = "hooks")]
    for (buffer, extra, rounds) in [(1usize, 1usize, 10usize), (1, 49, if c.thorough { 200000 } else { 30000 }), (2, 20, 1000), (100, 250, 100)] {
        c.case(|| format!("buffer {}, a single frame answered by {} frames {} times, then the connection closed", buffer, 1 + extra, rounds), || {
            run(async move {
                let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
                let addr = l.local_addr().unwrap();
                let peer = tokio::spawn(async move {
                    use tokio::io::AsyncWriteExt;
                    let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
                    let mut p = Raw::new(s);
                    for _ in 0..rounds {
                        let (id, _, _) = p.get().await?.ok_or("client closed")?;
                        let mut all = vec![];
                        for _ in 0..1 + extra { all.extend(o::frame(id, 0xd1, &[])); }
                        p.s.write_all(&all).await.map_err(|e| e.to_string())?;
                    }
                    tokio::time::sleep(Duration::from_millis(20)).await;
                    Ok::<_, String>(())
                });
                let conn = Connection::connect(tokio::net::TcpStream::connect(addr).await.map_err(|e| e.to_string())?, buffer).await.map_err(|e| e.to_string())?;
                let (mut pending, _out) = conn.new_frames_io().await.map_err(|e| e.to_string())?;
                for _ in 0..rounds {
                    let one = conn.send_one(TFrame::new(Type::PingRequest, Bytes::new()));
                    within(one).await.map_err(|_| "an exchange that was answered never ended".to_string())?.map_err(|e| e.to_string())?;
                }
                peer.await.map_err(|e| e.to_string())??;
                let end = within(pending.recv()).await.map_err(|_| "a pending exchange never ended".to_string())?;
                ensure(end.is_none(), || "a frame from nowhere".into())
            })
        });
    }
    #[cfg(feature = "hooks")]
    let _ = ty(1);
    let _ = Reply::Silent;
}
