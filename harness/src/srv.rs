//! C15, C16, C17: registries, server life cycle, request failures.
use crate::msg::{Outcome, H, HA};
use crate::net::*;
use crate::oracle as o;
use crate::util::*;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;
use tchannel_rs::errors::{CodecError, HandlerError};
use tchannel_rs::messages::{MessageChannel, RawMessage};
#[cfg(feature = "hooks")]
use tchannel_rs::verif_hooks::*;
use tchannel_rs::{SubChannel, TChannel};
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;

#[cfg(feature = "hooks")]
#[derive(Clone, Debug)]
enum Op { Reg(usize), RegAsync(usize), Unreg(usize), Call(usize) }

#[cfg(feature = "hooks")]
async fn registry(ops: &[Op], names: &[String]) -> Res {
    let pools = Arc::new(ConnectionPools::default());
    let mut sub = SubChannel::new("svc".into(), pools);
    // name -> serial number of the live handler; the handler answers with its own log
    let mut live: HashMap<usize, (usize, Arc<std::sync::Mutex<Vec<RawMessage>>>)> = HashMap::new();
    let mut logs = vec![];
    for (i, op) in ops.iter().enumerate() {
        let at = |m: &str| format!("operation {} {:?}: {}", i, op, m);
        match op {
            Op::Reg(n) | Op::RegAsync(n) => {
                let h = H::new(Outcome::Ok);
                let log = h.calls.clone();
                let r = if let Op::Reg(_) = op { sub.register(&names[*n], h).await } else { sub.register_async(&names[*n], HA(h)).await };
                ensure(r.is_ok() != live.contains_key(n), || at(&format!("{:?} while registered: {}", r.is_ok(), live.contains_key(n))))?;
                if r.is_ok() { live.insert(*n, (i, log.clone())); }
                logs.push((i, log));
            }
            Op::Unreg(n) => {
                let r = sub.unregister(&names[*n]).await;
                ensure(r.is_ok() == live.contains_key(n), || at("wrong result"))?;
                live.remove(n);
            }
            Op::Call(n) => {
                let args: MessageArgs = RawMessage::new(names[*n].clone(), i.to_string(), "b".into()).try_into().map_err(|e: CodecError| e.to_string())?;
                let before: Vec<usize> = logs.iter().map(|(_, l)| l.lock().unwrap().len()).collect();
                let r = subchannel_handle(&sub, args).await;
                ensure(r.is_ok() == live.contains_key(n), || at(&format!("handled {} while registered {}", r.is_ok(), live.contains_key(n))))?;
                for ((serial, l), b) in logs.iter().zip(before) {
                    let called = l.lock().unwrap().len() - b;
                    let want = live.get(n).map_or(0, |(s, _)| (s == serial) as usize);
                    ensure(called == want, || at(&format!("handler {} called {} times instead of {}", serial, called, want)))?;
                }
            }
        }
    }
    Ok(())
}

#[cfg(feature = "hooks")]
fn registries(c: &mut Ctx) {
    let names: Vec<String> = vec!["a".into(), "A".into(), "".into(), "ab".into(), "é".into(), "a ".into()];
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mk = |k: usize| { let n = k % 2; match k / 2 { 0 => Op::Reg(n), 1 => Op::RegAsync(n), 2 => Op::Unreg(n), _ => Op::Call(n) } };
    let len = if c.thorough { 6 } else { 5 };
    for k in 0..8usize.pow(len) {
        let mut k = k;
        let mut ops = vec![];
        for _ in 0..len { ops.push(mk(k % 8)); k /= 8; }
        ops.push(Op::Call(0));
        ops.push(Op::Call(1));
        c.case(|| format!("{:?}", ops), || rt.block_on(registry(&ops, &names)));
        if c.done() { return; }
    }
    let mut rng = c.rng(15);
    for _ in 0..if c.thorough { 400000 } else { 6000 } {
        if !c.more() { break; }
        let ops: Vec<Op> = (0..rng.below(40)).map(|_| { let n = rng.below(names.len()); match rng.below(6) { 0 => Op::Reg(n), 1 => Op::RegAsync(n), 2 => Op::Unreg(n), _ => Op::Call(n) } }).collect();
        c.case(|| format!("random {:?}", ops), || rt.block_on(registry(&ops, &names)));
    }
    c.case(|| "request without arguments or with a name that is not UTF-8".to_string(), || {
        rt.block_on(async {
            let sub = SubChannel::new("svc".into(), Arc::new(ConnectionPools::default()));
            sub.register("", H::new(Outcome::Ok)).await.map_err(|e| e.to_string())?;
            let r = subchannel_handle(&sub, MessageArgs::new(ArgSchemeValue::Raw, vec![])).await;
            ensure(r.is_err(), || "handled a request without arguments".into())?;
            let r = subchannel_handle(&sub, MessageArgs::new(ArgSchemeValue::Raw, vec![bytes::Bytes::from(vec![0xff])])).await;
            ensure(r.is_err(), || "handled a request with a bad name".into())
        })
    });
}
pub fn c15(c: &mut Ctx) {
    #[cfg(feature = "hooks")]
    registries(c);
    if c.done() { return; }
    #[cfg(feature = "hooks")]
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    // subchannels
    for round in 0..if c.thorough { 2000 } else { 40 } {
        c.case(|| format!("subchannels asked for concurrently, round {}", round), || {
            run(async {
                let ch = Arc::new(client()?);
                let names = ["a", "A", "", "aa", "b", "é"];
                let mut tasks = vec![];
                for i in 0..48usize {
                    let ch = ch.clone();
                    tasks.push(tokio::spawn(async move { (i % 6, ch.subchannel(names[i % 6]).await) }));
                }
                let mut seen: HashMap<usize, Arc<SubChannel>> = HashMap::new();
                for t in tasks {
                    let (n, s) = t.await.map_err(|e| e.to_string())?;
                    let s = s.map_err(|e| e.to_string())?;
                    if let Some(old) = seen.get(&n) { ensure(Arc::ptr_eq(old, &s), || format!("two subchannels for {:?}", names[n]))?; }
                    for (m, o) in &seen { ensure(*m == n || !Arc::ptr_eq(o, &s), || format!("one subchannel for {:?} and {:?}", names[*m], names[n]))?; }
                    seen.insert(n, s);
                }
                Ok(())
            })
        });
        #[cfg(feature = "hooks")]
        c.case(|| format!("pools asked for concurrently, round {}", round), || {
            run(async {
                let pools = Arc::new(ConnectionPools::default());
                let addrs: Vec<std::net::SocketAddr> = ["127.0.0.1:1", "127.0.0.1:2", "127.0.0.2:1", "[::1]:1"].iter().map(|s| s.parse().unwrap()).collect();
                let mut tasks = vec![];
                for i in 0..40usize {
                    let pools = pools.clone();
                    let a = addrs[i % 4];
                    tasks.push(tokio::spawn(async move { (i % 4, pools.get(a).await) }));
                }
                let mut seen: HashMap<usize, usize> = HashMap::new();
                let mut keep = vec![];
                for t in tasks {
                    let (n, s) = t.await.map_err(|e| e.to_string())?;
                    let s = s.map_err(|e| e.to_string())?;
                    let p = Arc::as_ptr(&s) as usize;
                    keep.push(s);
                    if let Some(old) = seen.insert(n, p) { ensure(old == p, || format!("two pools for {}", addrs[n]))?; }
                }
                ensure(seen.values().collect::<HashSet<_>>().len() == 4, || "addresses share a pool".into())
            })
        });
        if c.done() { return; }
    }
    #[cfg(feature = "hooks")]
    c.case(|| "pools of 100 addresses".to_string(), || {
        run(async {
            let pools = ConnectionPools::default();
            let mut all = vec![];
            for i in 0..100u16 { let a = std::net::SocketAddr::from(([127, 0, 0, 1], 1 + i)); all.push((a, pools.get(a).await.map_err(|e| e.to_string())?)); }
            for (i, (a, p)) in all.iter().enumerate() {
                let q = pools.get(*a).await.map_err(|e| e.to_string())?;
                ensure(Arc::ptr_eq(p, &q), || format!("address {} got another pool the second time", i))?;
            }
            ensure(all.iter().map(|x| Arc::as_ptr(&x.1) as usize).collect::<HashSet<_>>().len() == 100, || "addresses share a pool".into())
        })
    });
    c.case(|| "subchannels of 300 names".to_string(), || {
        run(async {
            let ch = client()?;
            let mut all = vec![];
            for i in 0..300 { let n = format!("s{}", i); all.push((n.clone(), ch.subchannel(&n).await.map_err(|e| e.to_string())?)); }
            for (n, s) in &all {
                let again = ch.subchannel(n).await.map_err(|e| e.to_string())?;
                ensure(Arc::ptr_eq(s, &again), || format!("{} got another subchannel the second time", n))?;
            }
            ensure(all.iter().map(|x| Arc::as_ptr(&x.1) as usize).collect::<HashSet<_>>().len() == 300, || "names share a subchannel".into())
        })
    });
    // handlers registered under one name by several threads at once: one of them
    let threads = 4;
    #[cfg(feature = "hooks")]
    for round in 0..if c.thorough { 40 } else { 2 } {
        c.case(|| format!("handlers registered under the same names by {} threads, round {}", threads, round), || {
            let n = 3000usize;
            let sub = Arc::new(SubChannel::new("svc".into(), Arc::new(ConnectionPools::default())));
            let gate = Arc::new(std::sync::Barrier::new(threads));
            let all: Vec<_> = (0..threads).map(|_| {
                let (sub, gate) = (sub.clone(), gate.clone());
                std::thread::spawn(move || {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    rt.block_on(async {
                        let mut won = vec![];
                        for i in 0..n {
                            let h = H::new(Outcome::Ok);
                            let log = h.calls.clone();
                            if i % 16 == 0 { gate.wait(); }
                            if sub.register(format!("e{}", i), h).await.is_ok() { won.push((i, log)); }
                        }
                        won
                    })
                })
            }).collect();
            let mut won: HashMap<usize, Vec<_>> = HashMap::new();
            for t in all { for (i, log) in t.join().map_err(|_| "panicked".to_string())? { won.entry(i).or_default().push(log); } }
            for i in 0..n {
                let k = won.get(&i).map_or(0, |w| w.len());
                ensure(k == 1, || format!("{} of {} registrations under one name succeeded", k, threads))?;
            }
            rt.block_on(async {
                for i in (0..n).step_by(97) {
                    let args: MessageArgs = RawMessage::new(format!("e{}", i), "h".into(), "b".into()).try_into().map_err(|e: CodecError| e.to_string())?;
                    ensure(subchannel_handle(&sub, args).await.is_ok() && won[&i][0].lock().unwrap().len() == 1, || "a request went to another handler than the registered one".into())?;
                }
                Ok(())
            })
        });
        if c.done() { return; }
    }
    // long names, which differ at their ends only
    c.case(|| "requests to services and endpoints of long names".to_string(), || {
        run(async move {
            let server = Srv::start(|_| {}).await?;
            let names: Vec<String> = [1usize, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255].iter().flat_map(|n| ["x", "y"].map(|l| format!("{}{}", "n".repeat(n - 1), l))).collect();
            let mut logs = HashMap::new();
            for s in &names {
                let sub = server.ch.subchannel(s).await.map_err(|e| e.to_string())?;
                for e in [s.clone(), format!("{}{}", s.repeat(20), s)] {
                    let h = H::new(Outcome::Ok);
                    logs.insert((s.clone(), e.clone()), h.calls.clone());
                    sub.register(e, h).await.map_err(|e| e.to_string())?;
                }
            }
            let cl = client()?;
            for (s, e) in logs.keys() {
                let sub = cl.subchannel(s).await.map_err(|e| e.to_string())?;
                for (e, known) in [(e.clone(), true), (format!("{}z", e), false), (e[..e.len() - 1].to_string(), false)] {
                    let known = known || logs.contains_key(&(s.clone(), e.clone()));
                    let before: HashMap<_, usize> = logs.iter().map(|(k, l)| (k.clone(), l.lock().unwrap().len())).collect();
                    let r = within(sub.send(RawMessage::new(e.clone(), "h".into(), "b".into()), server.addr)).await?;
                    ensure(r.is_ok() == known, || format!("call to service of {} and endpoint of {} characters: {:?}", s.len(), e.len(), r.as_ref().map(|_| ()).map_err(|e| e.to_string())))?;
                    for (k, l) in &logs {
                        let n = l.lock().unwrap().len() - before[k];
                        ensure(n == (k.0 == *s && k.1 == e) as usize, || format!("call to service of {} and endpoint of {} characters: handler of {} and {} called {} times", s.len(), e.len(), k.0.len(), k.1.len(), n))?;
                    }
                }
            }
            Ok(())
        })
    });
    // dispatch to service and endpoint over loopback
    for services in [vec!["s1", "s2", "S1"], vec!["s1"], vec!["", "s1"], vec!["s1", "*", "default", "s", "S"]] {
    c.case(|| format!("requests to several services and endpoints, registered: {:?}", services), || {
        let services = services.clone();
        run(async move {
            let server = Srv::start(|_| {}).await?;
            let mut logs = HashMap::new();
            for s in services {
                let sub = server.ch.subchannel(s).await.map_err(|e| e.to_string())?;
                for e in ["x", "y"] {
                    if s == "S1" && e == "y" { continue; }
                    let h = H::new(Outcome::Ok);
                    logs.insert((s, e), h.calls.clone());
                    sub.register(e, h).await.map_err(|e| e.to_string())?;
                }
            }
            let cl = client()?;
            for s in ["s1", "s2", "S1", "s", "s11", "", " s1", "s1 "] {
                for e in ["x", "y", "xy", "", "X", " x", "x ", "/x", "s1::x"] {
                    let before: HashMap<_, usize> = logs.iter().map(|(k, l)| (*k, l.lock().unwrap().len())).collect();
                    let sub = cl.subchannel(s).await.map_err(|e| e.to_string())?;
                    let r = within(sub.send(RawMessage::new(e.into(), "h".into(), "b".into()), server.addr)).await?;
                    ensure(r.is_ok() == logs.contains_key(&(s, e)), || format!("call to {} {}: {:?}", s, e, r.as_ref().map(|_| ()).map_err(|e| e.to_string())))?;
                    for (k, l) in &logs {
                        let n = l.lock().unwrap().len() - before[k];
                        ensure(n == (*k == (s, e)) as usize, || format!("call to {} {}: handler {:?} called {} times", s, e, k, n))?;
                    }
                }
            }
            Ok(())
        })
    });
    if c.done() { return; }
    }
}

async fn served(addr: std::net::SocketAddr) -> bool {
    match TcpStream::connect(addr).await {
        Ok(s) => {
            let mut p = Raw::new(s);
            if p.put(1, 1, &[0, 2, 0, 0]).await.is_err() { return false; }
            matches!(p.get_in(5000).await, Ok(Some((1, 2, _))))
        }
        Err(_) => false,
    }
}
async fn becomes(addr: std::net::SocketAddr, want: bool) -> bool {
    for _ in 0..600 {
        if served(addr).await == want { return true; }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    false
}
pub fn c16(c: &mut Ctx) {
    let total = if c.thorough { 7 } else { 5 };
    for len in 1..=total {
        for k in 0..1usize << len {
            let ops: Vec<bool> = (0..len).map(|i| k >> i & 1 == 1).collect();
            c.case(|| format!("{:?}", ops.iter().map(|o| if *o { "start" } else { "shutdown" }).collect::<Vec<_>>()), || {
                run(async {
                    let cf = conf();
                    let ch = TChannel::new(config(&cf)).map_err(|e| e.to_string())?;
                    let mut running = false;
                    for (i, start) in ops.iter().enumerate() {
                        if *start {
                            let r = ch.start_server();
                            ensure(r.is_ok() != running, || format!("step {}: start returned {:?} while running {}", i, r, running))?;
                            running = true;
                            ensure(becomes(cf.addr, true).await, || format!("step {}: not served after start", i))?;
                        } else {
                            let r = ch.shutdown_server();
                            ensure(r.is_ok(), || format!("step {}: shutdown returned {:?}", i, r))?;
                            running = false;
                            ensure(becomes(cf.addr, false).await, || format!("step {}: served after shutdown", i))?;
                        }
                    }
                    drop(ch);
                    ensure(becomes(cf.addr, false).await, || "served after the channel was dropped".into())
                })
            });
            if c.done() { return; }
        }
    }
    // started by several threads at once: one of them
    for round in 0..if c.thorough { 50 } else { 3 } {
        c.case(|| format!("start by 4 threads at once 300 times, round {}", round), || {
            let threads = 4;
            let ch = Arc::new(TChannel::new(config(&Conf { addr: "127.0.0.1:0".parse().unwrap(), ..conf() })).map_err(|e| e.to_string())?);
            let rt = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap());
            let (gate, won) = (Arc::new(std::sync::Barrier::new(threads)), Arc::new(std::sync::atomic::AtomicUsize::new(0)));
            let all: Vec<_> = (0..threads).map(|me| {
                let (ch, gate, won, rt) = (ch.clone(), gate.clone(), won.clone(), rt.clone());
                std::thread::spawn(move || -> Res {
                    let _in = rt.enter();
                    let mut bad = Ok(());
                    for i in 0..300 {
                        gate.wait();
                        if ch.start_server().is_ok() { won.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
                        gate.wait();
                        if me == 0 {
                            let n = won.swap(0, std::sync::atomic::Ordering::SeqCst);
                            if n != 1 && bad.is_ok() { bad = Err(format!("{} of {} starts at once succeeded (time {})", n, threads, i)); }
                        }
                        if let Err(e) = ch.shutdown_server() { bad = Err(format!("shutdown: {}", e)); }
                    }
                    bad
                })
            }).collect();
            let mut r = Ok(());
            for t in all { r = t.join().map_err(|_| "panicked".to_string()).and_then(|x| x).and(r); }
            drop(ch);
            if let Ok(rt) = Arc::try_unwrap(rt) { rt.shutdown_background(); }
            r
        });
        if c.done() { return; }
    }
    // shut down and started again while connections are open, and after the port was taken
    for (calls, end) in [(0usize, false), (1, false), (3, true), (1, true)] {
        c.case(|| format!("{} connections open when the server is {}", calls, if end { "dropped" } else { "shut down" }), || {
            run(async {
                let cf = conf();
                let ch = TChannel::new(config(&cf)).map_err(|e| e.to_string())?;
                ch.start_server().map_err(|e| e.to_string())?;
                ensure(becomes(cf.addr, true).await, || "not served after start".into())?;
                let sub = ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                let mut h = H::new(Outcome::Ok);
                h.delay = 400;
                sub.register_async("slow", HA(h)).await.map_err(|e| e.to_string())?;
                let mut open = vec![];
                for i in 0..calls {
                    let mut p = Raw::connect(cf.addr).await?;
                    p.handshake(i as u32).await?;
                    p.put(7, 3, &req(0, "svc", "raw", &[b"slow".to_vec(), b"h".to_vec(), b"b".to_vec()])).await?;
                    open.push(p);
                }
                ensure(ch.start_server().is_err(), || "started while running".into())?;
                if !end {
                    ensure(ch.shutdown_server().is_ok(), || "shutdown failed".into())?;
                    ensure(becomes(cf.addr, false).await, || "served after shutdown".into())?;
                    ensure(ch.shutdown_server().is_ok(), || "second shutdown failed".into())?;
                    ensure(ch.start_server().is_ok(), || "not started again".into())?;
                    ensure(becomes(cf.addr, true).await, || "not served after the second start".into())?;
                    ensure(ch.start_server().is_err(), || "started while running".into())?;
                }
                drop(ch);
                drop(sub);
                ensure(becomes(cf.addr, false).await, || "served after the channel was dropped".into())
            })
        });
        if c.done() { return; }
    }
    c.case(|| "the port is taken at the first start".to_string(), || {
        run(async {
            let cf = conf();
            let other = tokio::net::TcpListener::bind(cf.addr).await.map_err(|e| e.to_string())?;
            let ch = TChannel::new(config(&cf)).map_err(|e| e.to_string())?;
            ensure(ch.start_server().is_ok(), || "start failed".into())?;
            tokio::time::sleep(Duration::from_millis(100)).await;
            drop(other);
            ensure(ch.shutdown_server().is_ok(), || "shutdown failed".into())?;
            ensure(ch.start_server().is_ok(), || "not started again".into())?;
            ensure(becomes(cf.addr, true).await, || "not served after the second start".into())?;
            drop(ch);
            ensure(becomes(cf.addr, false).await, || "served after the channel was dropped".into())
        })
    });
}

/// A request that must fail: its frames, and what it is.
fn bad_requests() -> Vec<(Vec<(u8, Vec<u8>)>, &'static str)> {
    let b = |s: &str| s.as_bytes().to_vec();
    let ok = |svc: &str, ep: &str| req(0, svc, "raw", &[b(ep), b("h"), b("b")]);
    let mut v: Vec<(Vec<(u8, Vec<u8>)>, &'static str)> = vec![
        (vec![(3, ok("nosvc", "ep"))], "unknown service"),
        (vec![(3, ok("svc", "nope"))], "unknown endpoint"),
        (vec![(3, ok("svc", "gen"))], "handler general error"),
        (vec![(3, ok("svc", "int"))], "handler internal error"),
        (vec![(3, ok("svc", "huge"))], "handler error with a huge text"),
        (vec![(3, ok("svc", "hugeu"))], "handler error with a huge text of wide characters"),
        (vec![(3, ok("svc", "asyncgen"))], "async handler general error"),
        (vec![(3, req(0, "svc", "json", &[b("ep"), b("h"), b("b")]))], "wrong scheme"),
        (vec![(3, req(0, "svc", "nonsense", &[b("ep"), b("h"), b("b")]))], "unknown scheme"),
        (vec![(3, o::call_req(0, 1, (0, 0, 0, 0), "svc", &[], &o::args(0, None, &[b("ep"), b("h"), b("b")])))], "no scheme"),
        (vec![(3, req(0, "svc", "raw", &[vec![0xff], b("h"), b("b")]))], "endpoint not UTF-8"),
        (vec![(3, req(0, "svc", "raw", &[b("ep"), vec![0xc3], b("b")]))], "header not UTF-8"),
        (vec![(3, o::call_req(0, 1, (0, 0, 0, 0), "svc", &hs("raw"), &o::args(1, Some(5), &[b("ep"), b("h"), b("b")])))], "unsupported checksum"),
        (vec![(3, vec![])], "empty payload"),
        (vec![(3, vec![0, 1, 2, 3])], "truncated payload"),
        (vec![(3, ok("svc", "ep")[..40].to_vec())], "cut payload"),
        (vec![(3, o::call_req(0x10, 1, (0, 0, 0, 0), "svc", &hs("raw"), &o::args(0, None, &[b("ep")])))], "unknown flags"),
        (vec![(4, res(0, 0, "raw", &[b("ep"), b("h"), b("b")]))], "a response instead of a request"),
        (vec![(0x13, cont(0, &[b("ep")]))], "continuation of nothing"),
        (vec![(0xc0, vec![0; 31])], "cancel"),
        (vec![(0xc1, vec![0; 29])], "claim"),
        (vec![(0xff, error_payload(3, "e"))], "error frame"),
        (vec![(1, vec![0, 2, 0, 0])], "second init"),
        (vec![(3, req(1, "svc", "raw", &[b("ep"), b("h")])), (0x13, vec![0])], "bad continuation"),
        (vec![(3, req(1, "svc", "raw", &[b("ep"), b("h")])), (0xff, error_payload(2, "gone"))], "error frame inside a request"),
        (vec![(3, req(1, "svc", "raw", &[b("ep"), b("h")])), (3, ok("svc", "ep"))], "request inside a request"),
        (vec![(3, req(1, "svc", "raw", &[b("nope"), b("h")])), (0x13, cont(0, &[b("x")]))], "unknown endpoint in two frames"),
    ];
    v.push((vec![(0xd0, vec![])], "ping"));
    v
}
async fn server17(tasks: usize, buffer: usize) -> Result<Srv, String> {
    let server = Srv::start(|c| { c.tasks = tasks; c.buffer = buffer }).await?;
    let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
    let e = |e: tchannel_rs::errors::TChannelError| e.to_string();
    sub.register("ep", H::new(Outcome::Ok)).await.map_err(e)?;
    sub.register("gen", H::new(Outcome::General("bad luck".into()))).await.map_err(e)?;
    sub.register("int", H::new(Outcome::Internal)).await.map_err(e)?;
    sub.register("huge", H::new(Outcome::General("x".repeat(200000)))).await.map_err(e)?;
    sub.register("hugeu", H::new(Outcome::General("😀".repeat(30000)))).await.map_err(e)?;
    sub.register_async("asyncgen", HA(H::new(Outcome::General("bad luck".into())))).await.map_err(e)?;
    let mut slow = H::new(Outcome::Ok);
    slow.delay = 60;
    sub.register_async("slow", HA(slow)).await.map_err(e)?;
    Ok(server)
}
async fn good_call(p: &mut Raw, id: u32, pending: &mut HashSet<u32>) -> Res {
    p.put(id, 3, &req(0, "svc", "raw", &[b"ep".to_vec(), id.to_string().into_bytes(), b"b".to_vec()])).await?;
    loop {
        let (i, t, b) = p.get().await.map_err(|e| format!("call after a failed request: {}", e))?.ok_or("the connection was closed after a failed request")?;
        if i != id { ensure(pending.contains(&i) && t == 0xff, || format!("unexpected frame {:#x} of id {}", t, i))?; continue; }
        ensure(t == 4, || format!("good call answered by {:#x}", t))?;
        let call = o::parse_call(4, &b).ok_or("bad response")?;
        return ensure(call.chunks[1] == id.to_string().into_bytes(), || "wrong response".into());
    }
}
pub fn c17(c: &mut Ctx) {
    crate::conn::leftovers(c);
    for (k, (_, what)) in bad_requests().iter().enumerate() {
        for with_slow in [false, true] {
            c.case(|| format!("failing request: {}, another call in flight: {}", what, with_slow), || {
                run(async {
                    let server = server17(8, 100).await?;
                    let mut p = Raw::connect(server.addr).await?;
                    p.handshake(1).await?;
                    if with_slow { p.put(50, 3, &req(0, "svc", "raw", &[b"slow".to_vec(), b"s".to_vec(), b"b".to_vec()])).await?; }
                    for (t, b) in &bad_requests()[k].0 { p.put(7, *t, b).await?; }
                    let mut err = None;
                    let mut slow = !with_slow;
                    while err.is_none() || !slow {
                        let (id, t, b) = p.get().await.map_err(|_| format!("failed request answered: {}, other call answered: {}", err.is_some(), slow))?.ok_or("the connection was closed")?;
                        if id == 7 && t == 0xff { err = Some(b); }
                        else if id == 50 && t == 4 { slow = true; }
                        else { return Err(format!("unexpected frame {:#x} of id {}", t, id)); }
                    }
                    // the error frame is decodable
                    let b = err.unwrap();
                    let mut cur = o::Cur(&b);
                    let code = cur.u8().unwrap_or(0);
                    ensure(cur.take(25).is_some() && cur.s2().is_some() && cur.0.is_empty(), || format!("error frame payload {}", brief(&b)))?;
                    ensure(code != 0 && (code <= 8 || code == 0xff), || format!("error code {}", code))?;
                    // the connection still works, also under the same id
                    let mut pend = HashSet::new();
                    pend.insert(7);
                    good_call(&mut p, 8, &mut pend).await?;
                    if bad_requests()[k].0.len() == 1 { good_call(&mut p, 7, &mut HashSet::new()).await?; }
                    Ok(())
                })
            });
            if c.done() { return; }
        }
    }
    // sequences of failing and good requests, few tasks and small buffers
    let mut rng = c.rng(17);
    for round in 0..if c.thorough { 1000 } else { 8 } {
        if round > 1 && !c.more() { break; }
        let seed = rng.next();
        c.case(|| format!("random mix of failing and good requests {} (seed {})", round, seed), || {
            run(async move {
                let mut rng = Rng::new(seed);
                let server = server17(1 + rng.below(6), 2 + rng.below(100)).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                let all = bad_requests();
                let mut pend = HashSet::new();
                for n in 0..60u32 {
                    if rng.below(2) == 0 {
                        let (f, _) = &all[rng.below(all.len())];
                        pend.insert(1000 + n);
                        for (t, b) in f { p.put(1000 + n, *t, b).await?; }
                    } else {
                        good_call(&mut p, n + 10, &mut pend).await?;
                    }
                }
                good_call(&mut p, 9, &mut pend).await
            })
        });
        if c.done() { return; }
    }
    // requests that are never completed do not keep others from being answered
    for (tasks, more, buffer) in [(1usize, 1usize, 10usize), (2, 1, 10), (4, 1, 10), (4, 1500, 10), (0, 300, 1)] {
        c.case(|| format!("{} incomplete requests, {} handled at a time", tasks + more, tasks), || {
            run(async {
                let server = server17(tasks, buffer).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                for i in 0..(tasks + more) as u32 { p.put(100 + i, 3, &req(1, "svc", "raw", &[b"ep".to_vec(), b"h".to_vec()])).await?; }
                good_call(&mut p, 8, &mut HashSet::new()).await
            })
        });
        if c.done() { return; }
    }
    // requests beyond the number handled at a time wait for others, which may be slow or fail, and are then answered
    for tasks in [1usize, 2, 4] {
        c.case(|| format!("slow, good and failing requests at once, {} handled at a time", tasks), || {
            run(async {
                let server = server17(tasks, 100).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                let eps = ["slow", "ep", "gen", "slow", "nope", "huge", "ep", "slow", "int", "asyncgen", "slow", "ep"];
                for (i, ep) in eps.iter().enumerate() { p.put(20 + i as u32, 3, &req(0, if i == 6 { "nosvc" } else { "svc" }, "raw", &[ep.as_bytes().to_vec(), i.to_string().into_bytes(), b"b".to_vec()])).await?; }
                let mut left: HashSet<usize> = (0..eps.len()).collect();
                while !left.is_empty() {
                    let (id, t, b) = p.get().await.map_err(|e| format!("requests {:?} not answered: {}", left, e))?.ok_or("the connection was closed")?;
                    let i = (id as usize).wrapping_sub(20);
                    ensure(left.remove(&i), || format!("frame {:#x} of id {}, which is unknown or answered", t, id))?;
                    let good = i != 6 && ["slow", "ep"].contains(&eps[i]);
                    ensure(t == if good { 4 } else { 0xff }, || format!("request {} to {} answered by {:#x}", i, eps[i], t))?;
                    if good { ensure(o::parse_call(4, &b).map_or(false, |c| c.chunks[1] == i.to_string().into_bytes()), || format!("request {} got another response", i))?; }
                }
                good_call(&mut p, 8, &mut HashSet::new()).await
            })
        });
        if c.done() { return; }
    }
    // requests of many frames that fail in one of them while the others are already on their way
    for (buffer, n, bad) in [(1usize, 40usize, 1usize), (1, 40, 20), (2, 40, 3), (4, 100, 50), (16, 300, 10), (100, 400, 350)] {
        c.case(|| format!("request of {} frames with an undecodable frame {}, buffers of {}", n, bad, buffer), || {
            run(async {
                let server = server17(8, buffer).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                let mut all = o::frame(7, 3, &req(1, "svc", "raw", &[b"ep".to_vec(), b"h".to_vec(), vec![b'x'; 50]]));
                for i in 1..n {
                    let mut payload = vec![(i + 1 < n) as u8];
                    payload.extend(if i == bad { o::args(1, Some(5), &[vec![b'y'; 50]]) } else { o::args(0, None, &[vec![b'y'; 50]]) });
                    all.extend(o::frame(7, 0x13, &payload));
                }
                p.s.write_all(&all).await.map_err(|e| e.to_string())?;
                let mut pend = HashSet::new();
                pend.insert(7);
                good_call(&mut p, 8, &mut pend).await
            })
        });
        if c.done() { return; }
    }
    // nothing is left of failed requests: what stays registered keeps its channel, with room for some frames, allocated
    for (k, (frames, what)) in bad_requests().iter().enumerate() {
        c.case(|| format!("what is left of requests that failed: {}", what), || {
            run(async {
                let server = server17(8, 100).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                let mut held = vec![];
                let calls = 100u32;
                for round in 0..4u32 {
                    for i in 0..calls {
                        let id = 10 + round * calls + i;
                        let all: Vec<u8> = bad_requests()[k].0.iter().flat_map(|(t, b)| o::frame(id, *t, b)).collect();
                        p.s.write_all(&all).await.map_err(|e| e.to_string())?;
                        let (got, t, _) = p.get().await?.ok_or("the connection was closed")?;
                        ensure(got == id && t == 0xff, || format!("frame {:#x} of id {} for request {}", t, got, id))?;
                    }
                    tokio::time::sleep(Duration::from_millis(20)).await;
                    held.push(live());
                }
                let growth = (held[3] - held[1]) / (2 * calls as isize);
                ensure(growth < 700, || format!("each request left {} bytes behind", growth))
            })
        });
        let _ = frames;
        if c.done() { return; }
    }
    // what one connection sends or how it ends does not touch others
    let junk: Vec<(&str, bool, Vec<u8>)> = vec![
        ("nothing", false, vec![]),
        ("a size of 0", true, vec![0; 16]),
        ("a size of 0 instead of a handshake", false, vec![0; 16]),
        ("an unknown type", true, o::frame(5, 0x77, b"xyz")),
        ("half a frame", true, o::frame(5, 3, &req(0, "svc", "raw", &[b"ep".to_vec()]))[..20].to_vec()),
        ("text", false, b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n".to_vec()),
        ("text after its handshake", true, b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n".to_vec()),
        ("a handshake of another version", false, o::frame(1, 1, &[0, 1, 0, 0])),
        ("a broken handshake", false, o::frame(1, 1, &[0])),
        ("requests without reading the answers", true, (0..300u32).flat_map(|i| o::frame(10 + i, 3, &req(0, "svc", "raw", &[b"ep".to_vec(), b"h".to_vec(), vec![b'x'; 5000]]))).collect()),
    ];
    for (what, greets, bytes) in junk {
        c.case(|| format!("a connection sends {} and closes while others are in use", what), || {
            run(async {
                let server = server17(2, 10).await?;
                let mut p = Raw::connect(server.addr).await?;
                p.handshake(1).await?;
                for round in 0..3u32 {
                    p.put(50 + round, 3, &req(0, "svc", "raw", &[b"slow".to_vec(), b"s".to_vec(), b"b".to_vec()])).await?;
                    let mut q = Raw::connect(server.addr).await?;
                    if greets { q.handshake(1).await?; }
                    let _ = tokio::time::timeout(Duration::from_millis(300), q.s.write_all(&bytes)).await;
                    tokio::time::sleep(Duration::from_millis(10)).await;
                    drop(q);
                    let (id, t, _) = p.get().await?.ok_or("the other connection was closed")?;
                    ensure(id == 50 + round && t == 4, || format!("frame {:#x} of id {} instead of the response to {}", t, id, 50 + round))?;
                    good_call(&mut p, 8, &mut HashSet::new()).await?;
                    let mut n = Raw::connect(server.addr).await?;
                    n.handshake(1).await?;
                    good_call(&mut n, 8, &mut HashSet::new()).await?;
                }
                Ok(())
            })
        });
        if c.done() { return; }
    }
    // through the client API
    c.case(|| "client gets an error for a failed request and goes on".to_string(), || {
        run(async {
            let server = server17(4, 100).await?;
            let cl = client()?;
            let sub = cl.subchannel("svc").await.map_err(|e| e.to_string())?;
            for ep in ["nope", "gen", "int", "huge", "ep", "hugeu", "asyncgen", "ep"] {
                let r = within(sub.send(RawMessage::new(ep.into(), "h".into(), "b".into()), server.addr)).await.map_err(|e| format!("call to {}: {}", ep, e))?;
                match r {
                    Ok(_) => ensure(ep == "ep", || format!("call to {} succeeded", ep))?,
                    Err(HandlerError::InternalError(_)) => ensure(ep != "ep", || "good call failed".into())?,
                    Err(e) => return Err(format!("call to {}: {}", ep, e)),
                }
            }
            Ok(())
        })
    });
}
