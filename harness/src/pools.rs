//! C20: connection pools.
use crate::net::*;
use crate::oracle as o;
use crate::util::*;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tchannel_rs::messages::{MessageChannel, RawMessage};
use tchannel_rs::{ConfigBuilder, TChannel};
use tokio::net::TcpListener;

/// What a peer saw: connections opened, open now and at most, pings, and the connection each call came on.
#[derive(Default)]
struct Seen { opened: AtomicUsize, open: AtomicUsize, peak: AtomicUsize, pings: AtomicUsize, calls: Mutex<Vec<usize>> }
struct Peer { addr: SocketAddr, seen: Arc<Seen> }
/// Answers every call with its arguments after `delay`; closes a connection after `calls` calls (0: never).
async fn peer(delay: u64, calls: usize) -> Result<Peer, String> {
    let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
    let addr = l.local_addr().map_err(|e| e.to_string())?;
    let seen = Arc::new(Seen::default());
    let all = seen.clone();
    tokio::spawn(async move {
        while let Ok((s, _)) = l.accept().await {
            let n = all.opened.fetch_add(1, SeqCst);
            let now = all.open.fetch_add(1, SeqCst) + 1;
            all.peak.fetch_max(now, SeqCst);
            let seen = all.clone();
            tokio::spawn(async move {
                let mut p = Raw::new(s);
                let mut done = 0;
                // a handshake that takes a while: calls queue up behind it
                while let Ok(Some((id, t, b))) = p.get_in(600_000).await {
                    let r = match t {
                        1 => { tokio::time::sleep(Duration::from_millis(delay)).await; p.put(id, 2, &[0, 2, 0, 0]).await }
                        0xd0 => { seen.pings.fetch_add(1, SeqCst); p.put(id, 0xd1, &[]).await }
                        3 => {
                            seen.calls.lock().unwrap().push(n);
                            done += 1;
                            tokio::time::sleep(Duration::from_millis(delay)).await;
                            match o::parse_call(3, &b) { Some(c) => p.put(id, 4, &res(0, 0, "raw", &c.chunks)).await, None => Err("bad request".into()) }
                        }
                        _ => Ok(()),
                    };
                    if r.is_err() || done == calls && calls > 0 { break; }
                }
                seen.open.fetch_sub(1, SeqCst);
            });
        }
    });
    Ok(Peer { addr, seen })
}
fn channel(max: u32, lifetime: Option<Duration>, test: bool) -> Result<TChannel, String> {
    let c = ConfigBuilder::default().max_connections(max).lifetime(lifetime).test_connection(test).frame_buffer_size(100)
        .server_address(free_addr()).server_tasks(4).build().map_err(|e| e.to_string())?;
    TChannel::new(c).map_err(|e| e.to_string())
}
async fn call(ch: &TChannel, service: &str, body: String, to: SocketAddr) -> Result<(), String> {
    let sub = ch.subchannel(service).await.map_err(|e| e.to_string())?;
    let m = within_pool(ch, to, sub.send(RawMessage::new("ep".into(), "h".into(), body.clone().into()), to)).await?.map_err(|e| e.to_string())?;
    ensure(&m.body()[..] == body.as_bytes(), || format!("call {} answered by {}", body, m))
}
async fn limit(max: u32, calls: usize, delay: u64, test: bool, waves: usize) -> Res {
    let peers = vec![peer(delay, 0).await?, peer(delay, 0).await?];
    let ch = Arc::new(channel(max, None, test)?);
    for w in 0..waves {
        let mut tasks = vec![];
        for i in 0..calls {
            let (ch, to) = (ch.clone(), peers[i % 2].addr);
            tasks.push(tokio::spawn(async move { call(&ch, ["a", "b", "c"][i % 3], format!("{}-{}", w, i), to).await }));
        }
        for t in tasks { t.await.map_err(|e| e.to_string())??; }
    }
    let mut all = HashMap::new();
    for (i, p) in peers.iter().enumerate() {
        let n = p.seen.peak.load(SeqCst);
        all.insert(i, n);
        ensure(n <= max as usize, || format!("{} connections open at once to one address, at most {} allowed", n, max))?;
        ensure(p.seen.opened.load(SeqCst) <= max as usize, || format!("{} connections opened to a healthy peer, at most {} allowed", p.seen.opened.load(SeqCst), max))?;
        let want = (0..calls).filter(|k| k % 2 == i).count() * waves;
        let got = p.seen.calls.lock().unwrap().len();
        ensure(got == want, || format!("peer {} got {} calls, {} were made", i, got, want))?;
        // the first call over a connection comes right after its handshake, and bb8 hands one that is put back to a waiting call untested
        let (pings, opened) = (p.seen.pings.load(SeqCst), p.seen.opened.load(SeqCst));
        ensure(if !test { pings == 0 } else if calls <= 2 { pings + opened >= want } else { want == 0 || pings > 0 }, || format!("{} pings for {} calls with test_connection {}", pings, want, test))?;
    }
    Ok(())
}
pub fn c20(c: &mut Ctx) {
    // bb8 looks for connections past their lifetime every 30 s: watched meanwhile
    let aged = std::thread::spawn(|| run_for(100, async {
        let p = peer(0, 0).await?;
        let (young, old) = (channel(1, Some(Duration::from_secs(1)), false)?, channel(1, None, false)?);
        let younger = channel(1, Some(Duration::from_millis(300)), false)?;
        let (q, r) = (peer(0, 0).await?, peer(0, 0).await?);
        let start = Instant::now();
        while p.seen.opened.load(SeqCst) < 2 || r.seen.opened.load(SeqCst) < 2 {
            ensure(start.elapsed() < Duration::from_secs(80), || "a connection past its lifetime is still used after 80 s".into())?;
            call(&young, "a", "x".into(), p.addr).await?;
            call(&younger, "a", "x".into(), r.addr).await?;
            call(&old, "a", "x".into(), q.addr).await?;
            tokio::time::sleep(Duration::from_millis(500)).await;
        }
        ensure(q.seen.opened.load(SeqCst) == 1, || "a connection without a lifetime was replaced".into())
    }));
    for max in [1u32, 2, 3, 7] {
        for calls in [1usize, 2, 12, 60] {
            for test in [false, true] {
                for delay in [0u64, 20] {
                    if !c.more() { break; }
                    c.case(|| format!("max {} calls {} test {} delay {} ms", max, calls, test, delay), || run(limit(max, calls, delay, test, if calls < 12 && delay == 0 { 5 } else { 2 })));
                }
            }
        }
    }
    for (addrs, max, calls) in [(40usize, 1u32, 3usize), (24, 2, 6), (7, 3, 12)] {
        c.case(|| format!("{} addresses, max {}, twice {} calls at once to each", addrs, max, calls), || run(async {
            let mut peers = vec![];
            for _ in 0..addrs { peers.push(peer(3, 0).await?); }
            let ch = Arc::new(channel(max, None, false)?);
            // one after the other first, so that the last addresses come to a client that knows many
            for p in &peers {
                let mut tasks = vec![];
                for i in 0..calls { let (ch, to) = (ch.clone(), p.addr); tasks.push(tokio::spawn(async move { call(&ch, "a", i.to_string(), to).await })); }
                for t in tasks { t.await.map_err(|e| e.to_string())??; }
            }
            for w in 0..2 {
                let mut tasks = vec![];
                for i in 0..addrs * calls {
                    let (ch, to) = (ch.clone(), peers[i % addrs].addr);
                    tasks.push(tokio::spawn(async move { call(&ch, ["a", "b"][i % 2], format!("{}-{}", w, i), to).await }));
                }
                for t in tasks { t.await.map_err(|e| e.to_string())??; }
            }
            for (i, p) in peers.iter().enumerate() {
                let n = p.seen.opened.load(SeqCst);
                ensure(n <= max as usize, || format!("{} connections opened to healthy address {} of {}, at most {} allowed", n, i, addrs, max))?;
            }
            Ok(())
        }));
        if c.done() { break; }
    }
    // connections that fail the test before use are not used
    for (t, what) in [(0xffu8, "an error frame"), (0xff, "an error frame without payload"), (4, "a call response"), (2, "an init response"), (0xd0, "a ping request"), (0xc0, "a cancel frame"), (0, "the end of the connection")] {
        for good in [0usize, 2] {
            c.case(|| format!("pings but the first {} of the first connection answered by {}", good, what), || run(async {
                let l = TcpListener::bind("127.0.0.1:0").await.map_err(|e| e.to_string())?;
                let addr = l.local_addr().map_err(|e| e.to_string())?;
                let seen = Arc::new(Mutex::new(vec![]));
                let all = seen.clone();
                tokio::spawn(async move {
                    let mut n = 0usize;
                    while let Ok((s, _)) = l.accept().await {
                        let (all, first) = (all.clone(), n == 0);
                        n += 1;
                        tokio::spawn(async move {
                            let (mut p, mut pings) = (Raw::new(s), 0usize);
                            while let Ok(Some((id, ty, b))) = p.get_in(600_000).await {
                                let r = match ty {
                                    1 => p.put(id, 2, &[0, 2, 0, 0]).await,
                                    0xd0 => {
                                        pings += 1;
                                        if !first || pings <= good { p.put(id, 0xd1, &[]).await } else if t == 0 { break } else {
                                            let b = match what { "an error frame" => error_payload(3, "no"), "a call response" => res(0, 0, "raw", &[vec![], vec![], vec![]]), "an init response" => vec![0, 2, 0, 0], _ => vec![] };
                                            p.put(id, t, &b).await
                                        }
                                    }
                                    3 => { all.lock().unwrap().push((first, pings)); match o::parse_call(3, &b) { Some(c) => p.put(id, 4, &res(0, 0, "raw", &c.chunks)).await, None => break } }
                                    _ => break,
                                };
                                if r.is_err() { break; }
                            }
                        });
                    }
                });
                let ch = channel(1, None, true)?;
                for i in 0..5 { call(&ch, "a", i.to_string(), addr).await?; }
                let seen = seen.lock().unwrap();
                ensure(seen.len() == 5 && seen.iter().all(|(first, pings)| !first || *pings <= good), || format!("a connection was used which failed its test: (first connection, pings before) of each call: {:?}", seen))
            }));
        }
    }
    // a peer that closes its connections: they are replaced, and again never too many
    for max in [1u32, 2] {
        for after in [1usize, 3] {
            c.case(|| format!("max {}, the peer closes a connection after {} calls", max, after), || run(async {
                let p = peer(0, after).await?;
                let ch = Arc::new(channel(max, None, false)?);
                for w in 0..6 {
                    let mut tasks = vec![];
                    for i in 0..6 { let (ch, a) = (ch.clone(), p.addr); tasks.push(tokio::spawn(async move { let _ = call(&ch, "a", format!("{}-{}", w, i), a).await; })); }
                    for t in tasks { t.await.map_err(|e| e.to_string())?; }
                }
                ensure(p.seen.peak.load(SeqCst) <= max as usize, || format!("{} connections open at once, at most {} allowed", p.seen.peak.load(SeqCst), max))
            }));
        }
    }
    let mut rng = c.rng(20);
    for _ in 0..if c.thorough { 400 } else { 12 } {
        if !c.more() { break; }
        let (max, calls, delay, test, waves) = (1 + rng.below(5) as u32, 1 + rng.below(80), [0, 1, 5, 30][rng.below(4)], rng.below(2) == 0, 1 + rng.below(3));
        c.case(|| format!("random: max {} calls {} delay {} test {} waves {}", max, calls, delay, test, waves), || run(limit(max, calls, delay, test, waves)));
    }
    c.case(|| "connections past their lifetime".to_string(), || aged.join().unwrap_or_else(|e| Err(panic_text(e))));
}
