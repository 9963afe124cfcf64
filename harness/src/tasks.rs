//! C21: how many requests of a connection are handled at once.
use crate::msg::{Outcome, H};
use crate::net::*;
use crate::oracle as o;
use crate::util::*;
use std::collections::HashSet;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
use tchannel_rs::errors::HandlerError;
use tchannel_rs::handler::{HandlerResult, RequestHandlerAsync};
use tchannel_rs::messages::RawMessage;

const SLOTS: usize = 48;
struct Gauge { now: AtomicUsize, max: AtomicUsize, begun: AtomicUsize, go: tokio::sync::Semaphore }
impl Gauge {
    fn new() -> Arc<Gauge> { Arc::new(Gauge { now: 0.into(), max: 0.into(), begun: 0.into(), go: tokio::sync::Semaphore::new(0) }) }
    fn now(&self) -> usize { self.now.load(SeqCst) }
    /// as many handlers as this run, and no more some time later
    async fn reaches(&self, n: usize, what: &str) -> Res {
        for _ in 0..4000 {
            if self.now() >= n { break; }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        ensure(self.now() == n, || format!("{}: {} requests are handled at once instead of {}", what, self.now(), n))?;
        tokio::time::sleep(Duration::from_millis(15)).await;
        ensure(self.now() == n, || format!("{}: {} requests are handled at once instead of {}", what, self.now(), n))
    }
}
/// Handles until it is let go. Every handler has its own lock, so requests go to distinct endpoints.
struct Waits { g: Arc<Gauge>, fails: bool }
struct Leave(Arc<Gauge>);
impl Drop for Leave { fn drop(&mut self) { self.0.now.fetch_sub(1, SeqCst); } }
impl std::fmt::Debug for Waits { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Waits") } }
impl RequestHandlerAsync for Waits {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> Pin<Box<dyn std::future::Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            let n = self.g.now.fetch_add(1, SeqCst) + 1;
            let _leave = Leave(self.g.clone());
            self.g.begun.fetch_add(1, SeqCst);
            self.g.max.fetch_max(n, SeqCst);
            self.g.go.acquire().await.unwrap().forget();
            if self.fails { Err(HandlerError::InternalError(tchannel_rs::errors::TChannelError::Error("no".into()))) } else { Ok(request) }
        })
    }
}
async fn server(tasks: usize, buffer: usize) -> Result<(Srv, Arc<Gauge>), String> {
    let s = Srv::start(|c| { c.tasks = tasks; c.buffer = buffer; c.conns = 3 }).await?;
    let g = Gauge::new();
    let sub = s.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
    for i in 0..SLOTS { sub.register_async(format!("w{}", i), Waits { g: g.clone(), fails: i % 3 == 2 }).await.map_err(|e| e.to_string())?; }
    sub.register("ep", H::new(Outcome::Ok)).await.map_err(|e| e.to_string())?;
    sub.register("gen", H::new(Outcome::General("bad".into()))).await.map_err(|e| e.to_string())?;
    Ok((s, g))
}
fn slot(i: usize) -> Vec<u8> { format!("w{}", i).into_bytes() }
/// A request to handler i under id 100 + i, in one frame or in two.
async fn ask(p: &mut Raw, i: usize) -> Res {
    let id = 100 + i as u32;
    if i % 4 == 1 {
        p.put(id, 3, &req(1, "svc", "raw", &[slot(i), i.to_string().into_bytes()])).await?;
        p.put(id, 0x13, &cont(0, &[vec![], b"b".to_vec()])).await
    } else { p.put(id, 3, &req(0, "svc", "raw", &[slot(i), i.to_string().into_bytes(), b"b".to_vec()])).await }
}
/// Reads the answer to one of the requests that are left.
async fn answer(p: &mut Raw, left: &mut HashSet<usize>) -> Res {
    let (id, t, b) = p.get().await.map_err(|e| format!("requests {:?} not answered: {}", left, e))?.ok_or("the connection was closed")?;
    let i = (id as usize).wrapping_sub(100);
    ensure(left.remove(&i), || format!("frame {:#x} of id {}, which is unknown or answered", t, id))?;
    ensure(t == if i % 3 == 2 { 0xff } else { 4 }, || format!("request {} answered by {:#x}", i, t))?;
    if t == 4 { ensure(o::parse_call(4, &b).map_or(false, |c| c.chunks[1] == i.to_string().into_bytes()), || format!("request {} got another response", i))?; }
    Ok(())
}
fn limit(tasks: usize, n: usize) -> usize { if tasks == 0 { n } else { n.min(tasks) } }
/// n requests at once: as many as allowed are handled, one more with each that is done, and each is answered.
async fn drain(p: &mut Raw, g: &Gauge, tasks: usize, n: usize) -> Res {
    for i in 0..n { ask(p, i).await?; }
    let mut left: HashSet<usize> = (0..n).collect();
    while !left.is_empty() {
        g.reaches(limit(tasks, left.len()), &format!("{} requests, {} answered", n, n - left.len())).await?;
        let step = if left.len() > 8 && left.len() % 2 == 0 { 3 } else { 1 };
        g.go.add_permits(step);
        for _ in 0..step { answer(p, &mut left).await?; }
    }
    ensure(g.max.load(SeqCst) == limit(tasks, n), || format!("up to {} requests were handled at once instead of {}", g.max.load(SeqCst), limit(tasks, n)))
}
pub fn c21(c: &mut Ctx) {
    for (tasks, buffer, n) in [(4usize, 100usize, 12usize), (1, 100, 5), (2, 3, 9), (3, 1, 10), (7, 2, 20), (16, 100, SLOTS), (0, 100, SLOTS), (0, 2, 20), (100, 10, SLOTS), (usize::MAX, 10, SLOTS)] {
        c.case(|| format!("{} requests at once, {} tasks, buffers of {}", n, tasks, buffer), || {
            run(async move {
                let (server, g) = server(tasks, buffer).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                drain(&mut p, &g, tasks, n).await?;
                // and again
                g.max.store(0, SeqCst);
                drain(&mut p, &g, tasks, n.min(tasks.saturating_add(2))).await
            })
        });
        if c.done() { return; }
    }
    // requests that fail, or are not complete, take nothing away
    for tasks in [1usize, 2, 5] {
        c.case(|| format!("after and beside requests which fail, {} tasks", tasks), || {
            run(async move {
                let (server, g) = server(tasks, 50).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                for i in 0..30u32 {
                    let f = match i % 6 {
                        0 => req(0, "svc", "raw", &[b"nope".to_vec(), b"h".to_vec(), b"b".to_vec()]),
                        1 => req(0, "nosvc", "raw", &[b"ep".to_vec(), b"h".to_vec(), b"b".to_vec()]),
                        2 => req(0, "svc", "json", &[b"ep".to_vec(), b"h".to_vec(), b"b".to_vec()]),
                        3 => req(0, "svc", "raw", &[b"gen".to_vec(), b"h".to_vec(), b"b".to_vec()]),
                        4 => vec![0, 1, 2],
                        _ => req(0, "svc", "raw", &[b"ep".to_vec(), vec![0xff], b"b".to_vec()]),
                    };
                    p.put(1000 + i, 3, &f).await?;
                }
                for _ in 0..30 {
                    let (id, t, _) = p.get().await?.ok_or("the connection was closed")?;
                    ensure(id >= 1000 && t == 0xff, || format!("frame {:#x} of id {}", t, id))?;
                }
                drain(&mut p, &g, tasks, tasks + 4).await
            })
        });
        c.case(|| format!("beside requests which are incomplete, {} tasks", tasks), || {
            run(async move {
                let (server, g) = server(tasks, 50).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                for i in 0..(3 * tasks) as u32 { p.put(1000 + i, 3, &req(1, "svc", "raw", &[slot(40 + i as usize % 8), b"h".to_vec()])).await?; }
                drain(&mut p, &g, tasks, tasks + 4).await
            })
        });
        c.case(|| format!("two connections, {} tasks for each", tasks), || {
            run(async move {
                let (server, g) = server(tasks, 50).await?;
                let mut ps = vec![];
                for _ in 0..2 { let mut p = Raw::connect(server.addr).await?; p.handshake(1).await?; ps.push(p); }
                for i in 0..tasks + 3 { ask(&mut ps[0], i).await?; ask(&mut ps[1], 20 + i).await?; }
                g.reaches(2 * tasks, "two connections").await?;
                // what the first one leaves behind does not count for later ones
                let mut p = ps.swap_remove(0);
                drop(ps);
                let mut left: HashSet<usize> = (0..tasks + 3).collect();
                // handlers of a closed connection may end with it or when they are let go
                tokio::time::sleep(Duration::from_millis(30)).await;
                g.go.add_permits(6 * tasks + 10);
                while !left.is_empty() { answer(&mut p, &mut left).await?; }
                for _ in 0..2000 { if g.now() == 0 { break; } tokio::time::sleep(Duration::from_millis(2)).await; }
                ensure(g.now() == 0, || "requests of a closed connection are handled for ever".into())?;
                tokio::time::sleep(Duration::from_millis(30)).await;
                while let Ok(x) = g.go.try_acquire() { x.forget(); }
                g.max.store(0, SeqCst);
                drain(&mut p, &g, tasks, tasks + 2).await?;
                let mut n = Raw::connect(server.addr).await?;
                n.handshake(1).await?;
                g.max.store(0, SeqCst);
                drain(&mut n, &g, tasks, tasks + 2).await
            })
        });
        if c.done() { return; }
    }
    // any order of requests coming and being let go
    let mut rng = c.rng(21);
    for round in 0..if c.thorough { 300 } else { 6 } {
        if round > 1 && !c.more() { break; }
        let seed = rng.next();
        c.case(|| format!("requests come and are let go in any order {} (seed {})", round, seed), || {
            run(async move {
                let mut rng = Rng::new(seed);
                let tasks = rng.below(7);
                let (server, g) = server(tasks, 1 + rng.below(60)).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                let mut left = HashSet::new();
                let mut next = 0;
                for _ in 0..40 {
                    if rng.below(2) == 0 && left.len() < 30 {
                        // not one that still waits: a handler has a lock of its own
                        while left.contains(&next) { next = (next + 1) % SLOTS; }
                        ask(&mut p, next).await?;
                        left.insert(next);
                        next = (next + 1) % SLOTS;
                    } else if !left.is_empty() {
                        g.go.add_permits(1);
                        answer(&mut p, &mut left).await?;
                    }
                    g.reaches(limit(tasks, left.len()), &format!("{} requests left, {} tasks", left.len(), tasks)).await?;
                }
                g.go.add_permits(left.len());
                while !left.is_empty() { answer(&mut p, &mut left).await?; }
                ensure(tasks == 0 || g.max.load(SeqCst) <= tasks, || format!("up to {} requests were handled at once", g.max.load(SeqCst)))
            })
        });
        if c.done() { return; }
    }
    // through the client
    for tasks in [0usize, 1, 3] {
        c.case(|| format!("calls of a client over one connection, {} tasks", tasks), || {
            run(async move {
                use tchannel_rs::messages::MessageChannel;
                let (server, g) = server(tasks, 20).await?;
                let cl = client()?;
                let sub = cl.subchannel("svc").await.map_err(|e| e.to_string())?;
                let n = 8;
                let calls: Vec<_> = (0..n).map(|i| { let (sub, addr) = (sub.clone(), server.addr); tokio::spawn(async move { sub.send(RawMessage::new(format!("w{}", i), i.to_string(), "b".into()), addr).await.map(|r| r.header().clone()) }) }).collect();
                // a connection of the pool serves one call at a time until all its frames are sent, or longer
                for _ in 0..n {
                    for _ in 0..2000 { if g.now() > 0 { break; } tokio::time::sleep(Duration::from_millis(2)).await; }
                    ensure(g.now() > 0, || "no call is handled while some wait".into())?;
                    tokio::time::sleep(Duration::from_millis(10)).await;
                    g.go.add_permits(1);
                }
                for (i, t) in calls.into_iter().enumerate() {
                    let r = within(t).await?.map_err(|e| e.to_string())?;
                    match r { Ok(h) => ensure(i % 3 != 2 && h == i.to_string(), || format!("call {}: {}", i, h))?, Err(e) => ensure(i % 3 == 2, || format!("call {}: {}", i, e))? }
                }
                ensure(tasks == 0 || g.max.load(SeqCst) <= tasks, || format!("up to {} requests were handled at once", g.max.load(SeqCst)))
            })
        });
        if c.done() { return; }
    }
}
