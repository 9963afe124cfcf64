//! C10, C11: messages and handler outcomes.
use crate::net::*;
use crate::util::*;
use bytes::Bytes;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use tchannel_rs::errors::{CodecError, HandlerError, TChannelError};
use tchannel_rs::handler::{HandlerResult, RequestHandler, RequestHandlerAsync};
use tchannel_rs::messages::{JsonMessage, MessageChannel, RawMessage};
#[cfg(feature = "hooks")]
use tchannel_rs::verif_hooks::*;

#[cfg(feature = "hooks")]
fn raw_args(scheme: ArgSchemeValue, parts: &[Vec<u8>]) -> MessageArgs {
    MessageArgs::new(scheme, parts.iter().map(|p| Bytes::from(p.clone())).collect())
}
#[cfg(feature = "hooks")]
fn schemes() -> Vec<(ArgSchemeValue, &'static str)> {
    vec![
        (ArgSchemeValue::Raw, "raw"), (ArgSchemeValue::Json, "json"), (ArgSchemeValue::Http, "http"),
        (ArgSchemeValue::Thrift, "thrift"), (ArgSchemeValue::StreamingThrift, "sthrift"), (ArgSchemeValue::Custom("raw".into()), "custom"),
    ]
}
type Map = serde_json::Map<String, serde_json::Value>;
fn gen_map(rng: &mut Rng, depth: usize) -> Map {
    let mut m = Map::new();
    for _ in 0..rng.below(4) {
        let n = rng.below(8);
        let k = rng.text(n);
        m.insert(k, gen_val(rng, depth));
    }
    m
}
fn gen_val(rng: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::Value as V;
    match rng.below(if depth == 0 { 6 } else { 8 }) {
        0 => V::Null,
        1 => V::Bool(rng.below(2) == 0),
        2 => V::from(rng.next() as i64),
        3 => V::from(rng.next()),
        4 => V::from(rng.below(1000) as f64 / 8.0),
        5 => { let n = rng.below(20); V::from(rng.text(n)) }
        6 => V::Array((0..rng.below(4)).map(|_| gen_val(rng, depth - 1)).collect()),
        _ => V::Object(gen_map(rng, depth - 1)),
    }
}
#[cfg(feature = "hooks")]
fn raw_round(e: &str, h: &str, b: &[u8]) -> Res {
    let m = RawMessage::new(e.to_string(), h.to_string(), Bytes::from(b.to_vec()));
    let a: MessageArgs = m.try_into().map_err(|e: CodecError| e.to_string())?;
    ensure(a.arg_scheme == ArgSchemeValue::Raw, || format!("scheme {:?}", a.arg_scheme))?;
    let want: Vec<Vec<u8>> = vec![e.into(), h.into(), b.to_vec()];
    ensure(a.args.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == want, || format!("arguments {:?}", a.args))?;
    let m = RawMessage::try_from(a).map_err(|e| format!("refused its own arguments: {}", e))?;
    ensure(m.endpoint() == e && m.header() == h && m.body()[..] == *b, || format!("round trip gave {}", m))
}
#[cfg(feature = "hooks")]
fn json_round(e: &str, h: &Map, b: &Map) -> Res {
    let m = JsonMessage::new(e.to_string(), h.clone(), b.clone());
    let a: MessageArgs = m.try_into().map_err(|e: CodecError| e.to_string())?;
    ensure(a.arg_scheme == ArgSchemeValue::Json && a.args.len() == 3, || format!("{:?}", a))?;
    ensure(a.args[0][..] == *e.as_bytes(), || format!("method {:?}", a.args[0]))?;
    let p = |x: &[u8]| serde_json::from_slice::<Map>(x).map_err(|e| e.to_string());
    ensure(p(&a.args[1])? == *h, || format!("headers {:?}", a.args[1]))?;
    ensure(p(&a.args[2])? == *b, || format!("body {:?}", a.args[2]))?;
    let m = JsonMessage::try_from(a).map_err(|e| format!("refused its own arguments: {}", e))?;
    ensure(m.method_name() == e && m.headers() == h && m.body() == b, || format!("round trip gave {}", m))
}
#[cfg(feature = "hooks")]
pub fn c10(c: &mut Ctx) {
    ensure_schemes(c);
    // raw: shapes of argument lists
    let bads: [&[u8]; 6] = [&[0xff], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[b'a', 0x80]];
    for n in 0..=4usize {
        c.case(|| format!("raw message from {} arguments", n), || {
            let parts: Vec<Vec<u8>> = (0..n).map(|i| format!("arg{}", i).into_bytes()).collect();
            let m = RawMessage::try_from(raw_args(ArgSchemeValue::Raw, &parts)).map_err(|e| e.to_string())?;
            let at = |i: usize| if i < n { format!("arg{}", i) } else { String::new() };
            ensure(*m.endpoint() == at(0) && *m.header() == at(1) && m.body()[..] == *at(2).as_bytes(), || format!("{}", m))
        });
        c.case(|| format!("json message from {} arguments", n), || {
            let parts: Vec<Vec<u8>> = (0..n).map(|i| if i == 0 { b"m".to_vec() } else { format!("{{\"k\":{}}}", i).into_bytes() }).collect();
            let r = JsonMessage::try_from(raw_args(ArgSchemeValue::Json, &parts));
            if n < 3 { return ensure(r.is_err(), || "accepted missing JSON".into()); }
            let m = r.map_err(|e| e.to_string())?;
            ensure(m.method_name() == "m" && m.headers()["k"] == 1 && m.body()["k"] == 2, || format!("{}", m))
        });
    }
    for b in bads {
        for at in 0..3 {
            c.case(|| format!("not UTF-8 {:02x?} as raw argument {}", b, at + 1), || {
                let mut parts = vec![b"a".to_vec(), b"b".to_vec(), b"c".to_vec()];
                parts[at] = b.to_vec();
                let r = RawMessage::try_from(raw_args(ArgSchemeValue::Raw, &parts));
                if at == 2 { return ensure(r.map_err(|e| e.to_string())?.body()[..] == *b, || "body differs".into()); }
                ensure(r.is_err(), || "accepted text that is not UTF-8".into())
            });
            c.case(|| format!("not UTF-8 {:02x?} as json argument {}", b, at + 1), || {
                let mut parts = vec![b"a".to_vec(), b"{}".to_vec(), b"{}".to_vec()];
                parts[at] = b.to_vec();
                ensure(JsonMessage::try_from(raw_args(ArgSchemeValue::Json, &parts)).is_err(), || "accepted text that is not UTF-8".into())
            });
        }
    }
    for bad in ["", "null", "1", "\"x\"", "[]", "{", "{}x", "{\"a\":}", "true"] {
        for at in 1..3 {
            c.case(|| format!("JSON argument {} is {:?}", at + 1, bad), || {
                let mut parts = vec![b"a".to_vec(), b"{}".to_vec(), b"{}".to_vec()];
                parts[at] = bad.into();
                ensure(JsonMessage::try_from(raw_args(ArgSchemeValue::Json, &parts)).is_err(), || "accepted something that is not a JSON object".into())
            });
        }
    }
    for x in ODD_CHARS {
        for (what, t) in [("alone", x.to_string()), ("first", format!("{}ab", x)), ("last", format!("ab{}", x)), ("within", format!("a{}b", x)), ("twice", format!("{}{}", x, x)), ("around", format!("{} {}", x, x))] {
            c.case(|| format!("texts with {:?} {}", x, what), || {
                raw_round(&t, "h", b"b")?;
                raw_round("e", &t, b"b")?;
                raw_round("e", "h", t.as_bytes())?;
                let mut m = Map::new();
                m.insert(t.clone(), serde_json::Value::from(t.clone()));
                m.insert("list".into(), serde_json::Value::from(vec![t.clone(), "b".into()]));
                json_round(&t, &Map::new(), &Map::new())?;
                json_round("m", &m, &Map::new())?;
                json_round("m", &Map::new(), &m)
            });
        }
    }
    c.case(|| "json number 0.9073038322028689".to_string(), || {
        let m = |v: f64| { let mut m = Map::new(); m.insert("n".into(), serde_json::Value::from(v)); m };
        json_round("m", &Map::new(), &m(0.9073038322028689))
    });
    let mut rng = c.rng(10);
    let n = if c.thorough { 3000000 } else { 20000 };
    for _ in 0..n {
        if !c.more() { break; }
        let (el, hl, bl) = (rng.pick(&[0usize, 1, 5, 300]), rng.pick(&[0usize, 1, 9, 3000]), rng.pick(&[0usize, 1, 40, 70000]));
        let bl = if bl > 1000 && rng.below(20) != 0 { 7 } else { bl };
        let (e, h, b) = (rng.text(el), rng.text(hl), rng.bytes(bl));
        c.case(|| format!("raw {:?} {} {}", e.chars().take(20).collect::<String>(), h.len(), brief(&b)), || raw_round(&e, &h, &b));
        let (jh, jb) = (gen_map(&mut rng, 2), gen_map(&mut rng, 3));
        c.case(|| format!("json {:?} {:?} {:?}", e.chars().take(20).collect::<String>(), jh, jb), || json_round(&e, &jh, &jb));
    }
}
#[cfg(feature = "hooks")]
fn ensure_schemes(c: &mut Ctx) {
    for i in 0..schemes().len() {
        c.case(|| format!("scheme {} as raw and json message", schemes()[i].1), || {
            let parts = vec![b"e".to_vec(), b"{}".to_vec(), b"{}".to_vec()];
            let (s, name) = schemes().remove(i);
            let r = RawMessage::try_from(raw_args(s, &parts));
            ensure(r.is_ok() == (name == "raw"), || format!("raw message from {} arguments: {:?}", name, r))?;
            let (s, name) = schemes().remove(i);
            let r = JsonMessage::try_from(raw_args(s, &parts));
            ensure(r.is_ok() == (name == "json"), || format!("json message from {} arguments: {:?}", name, r))
        });
    }
    c.case(|| "declared schemes".to_string(), || {
        ensure(RawMessage::args_scheme() == ArgSchemeValue::Raw && JsonMessage::args_scheme() == ArgSchemeValue::Json, || "wrong scheme".into())
    });
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome { Ok, Msg, General(String), Internal }
#[derive(Debug)]
pub struct H { pub out: Outcome, pub calls: Arc<Mutex<Vec<RawMessage>>>, pub delay: u64 }
impl H {
    pub fn new(out: Outcome) -> H { H { out, calls: Default::default(), delay: 0 } }
    fn go(&mut self, request: RawMessage) -> HandlerResult<RawMessage> {
        self.calls.lock().unwrap().push(request.clone());
        let res = RawMessage::new(format!("R{}", request.endpoint()), request.header().clone(), request.body().clone());
        match &self.out {
            Outcome::Ok => Ok(res),
            Outcome::Msg => Err(HandlerError::MessageError(res)),
            Outcome::General(s) => Err(HandlerError::GeneralError(s.clone())),
            Outcome::Internal => Err(HandlerError::InternalError(TChannelError::Error("internal".into()))),
        }
    }
}
impl RequestHandler for H {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> HandlerResult<RawMessage> { self.go(request) }
}
#[derive(Debug)]
pub struct HA(pub H);
impl RequestHandlerAsync for HA {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> Pin<Box<dyn std::future::Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        Box::pin(async move {
            tokio::task::yield_now().await;
            if self.0.delay > 0 { tokio::time::sleep(std::time::Duration::from_millis(self.0.delay)).await; }
            self.0.go(request)
        })
    }
}
#[derive(Debug)]
pub struct HJ(pub bool);
impl RequestHandler for HJ {
    type REQ = JsonMessage;
    type RES = JsonMessage;
    fn handle(&mut self, r: JsonMessage) -> HandlerResult<JsonMessage> {
        if self.0 { Ok(r) } else { Err(HandlerError::MessageError(r)) }
    }
}

pub fn c11(c: &mut Ctx) {
    let outs = [Outcome::Ok, Outcome::Msg, Outcome::General("gen".into()), Outcome::Internal];
    #[cfg(feature = "hooks")]
    for out in &outs {
        for is_async in [false, true] {
            for (e, h, b) in [("", "", ""), ("e", "h", "b"), ("ep é", "", "zz")] {
                c.case(|| format!("adapter: handler outcome {:?}, async {}, request {:?}", out, is_async, (e, h, b)), || {
                    let args: MessageArgs = RawMessage::new(e.into(), h.into(), b.into()).try_into().map_err(|e: CodecError| e.to_string())?;
                    let hd = H::new(out.clone());
                    let calls = hd.calls.clone();
                    let r = block(async { if is_async { handle_async_with(HA(hd), args).await } else { handle_with(hd, args).await } });
                    ensure(calls.lock().unwrap().len() == 1, || "handler not called exactly once".into())?;
                    let got = calls.lock().unwrap()[0].clone();
                    ensure(got.endpoint() == e && got.header() == h && got.body()[..] == *b.as_bytes(), || format!("handler got {}", got))?;
                    check_outcome(out, r.map(|(c, a)| (c, RawMessage::try_from(a).unwrap())).map_err(|e| e.to_string()), e, h, b)
                });
            }
            c.case(|| format!("adapter: unconvertible request, outcome {:?}, async {}", out, is_async), || {
                for args in [raw_args(ArgSchemeValue::Json, &[b"e".to_vec()]), raw_args(ArgSchemeValue::Raw, &[vec![0xff]])] {
                    let hd = H::new(out.clone());
                    let calls = hd.calls.clone();
                    let r = block(async { if is_async { handle_async_with(HA(hd), args).await } else { handle_with(hd, args).await } });
                    ensure(calls.lock().unwrap().is_empty(), || "handler was called".into())?;
                    ensure(r.is_err(), || "no error".into())?;
                }
                Ok(())
            });
        }
    }
    // whole path over loopback
    for out in &outs {
        for is_async in [false, true] {
            for size in [0usize, 10, 200000] {
                c.case(|| format!("call over loopback: outcome {:?}, async {}, body {}", out, is_async, size), || {
                    run(async {
                        let server = Srv::start(|_| {}).await?;
                        let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                        let hd = H::new(out.clone());
                        if is_async { sub.register_async("ep", HA(hd)).await } else { sub.register("ep", hd).await }.map_err(|e| e.to_string())?;
                        let client = client()?;
                        let csub = client.subchannel("svc").await.map_err(|e| e.to_string())?;
                        let body = "b".repeat(size);
                        let r = within(csub.send(RawMessage::new("ep".into(), "hd".into(), body.clone().into()), server.addr)).await?;
                        match (out, r) {
                            (Outcome::Ok, Ok(m)) | (Outcome::Msg, Err(HandlerError::MessageError(m))) => {
                                ensure(m.endpoint() == "Rep" && m.header() == "hd" && m.body()[..] == *body.as_bytes(), || "response content differs".into())
                            }
                            (Outcome::General(_), Err(HandlerError::InternalError(_))) | (Outcome::Internal, Err(HandlerError::InternalError(_))) => Ok(()),
                            (_, r) => Err(format!("caller got {}", match r { Ok(_) => "a success".to_string(), Err(e) => e.to_string().chars().take(200).collect() })),
                        }
                    })
                });
            }
        }
    }
    // nothing, or next to nothing, in the parts of the message
    for out in &outs {
        for is_async in [false, true] {
            c.case(|| format!("calls with empty parts: outcome {:?}, async {}", out, is_async), || {
                run(async {
                    let server = Srv::start(|_| {}).await?;
                    let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                    let client = client()?;
                    let csub = client.subchannel("svc").await.map_err(|e| e.to_string())?;
                    for ep in ["", "e"] {
                        let hd = H::new(out.clone());
                        if is_async { sub.register_async(ep, HA(hd)).await } else { sub.register(ep, hd).await }.map_err(|e| e.to_string())?;
                        for header in ["", "h"] {
                            for body in ["", "b", "\0"] {
                                let r = within(csub.send(RawMessage::new(ep.into(), header.into(), body.into()), server.addr)).await?;
                                match (out, r) {
                                    (Outcome::Ok, Ok(m)) | (Outcome::Msg, Err(HandlerError::MessageError(m))) => {
                                        ensure(*m.endpoint() == format!("R{}", ep) && m.header() == header && m.body()[..] == *body.as_bytes(), || format!("call {:?}: response content differs: {}", (ep, header, body), m))?
                                    }
                                    (Outcome::General(_), Err(HandlerError::InternalError(_))) | (Outcome::Internal, Err(HandlerError::InternalError(_))) => {}
                                    (_, r) => return Err(format!("call {:?}: caller got {}", (ep, header, body), match r { Ok(_) => "a success".to_string(), Err(e) => e.to_string().chars().take(200).collect() })),
                                }
                            }
                        }
                    }
                    Ok(())
                })
            });
        }
        if c.done() { return; }
    }
    for (tasks, calls, size) in [(1usize, 1usize, 200000usize), (1, 5, 300000), (2, 6, 300000)] {
        c.case(|| format!("{} calls at once with bodies of {} bytes to a server handling {} at a time", calls, size, tasks), || {
            run(async {
                let server = Srv::start(|c| c.tasks = tasks).await?;
                let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                sub.register("ep", H::new(Outcome::Ok)).await.map_err(|e| e.to_string())?;
                let client = std::sync::Arc::new(client()?);
                let csub = client.subchannel("svc").await.map_err(|e| e.to_string())?;
                let mut pending = vec![];
                for i in 0..calls {
                    let (client, csub, addr) = (client.clone(), csub.clone(), server.addr);
                    pending.push(tokio::spawn(async move { within_pool(&client, addr, csub.send(RawMessage::new("ep".into(), i.to_string(), "b".repeat(size).into()), addr)).await }));
                }
                for (i, p) in pending.into_iter().enumerate() {
                    let m = p.await.map_err(|e| e.to_string())??.map_err(|e| format!("call {}: {}", i, e))?;
                    ensure(*m.header() == i.to_string() && m.body().len() == size, || format!("call {} got another response", i))?;
                }
                Ok(())
            })
        });
        if c.done() { return; }
    }
    for tasks in [1usize, 2] {
        c.case(|| format!("calls to slow handlers at once, {} handled at a time", tasks), || {
            run(async {
                let server = Srv::start(|c| c.tasks = tasks).await?;
                let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                for (i, out) in [Outcome::Ok, Outcome::Msg, Outcome::General("gen".into())].into_iter().enumerate() {
                    let mut h = H::new(out);
                    h.delay = 30;
                    sub.register_async(format!("a{}", i), HA(h)).await.map_err(|e| e.to_string())?;
                }
                let client = std::sync::Arc::new(client()?);
                let csub = client.subchannel("svc").await.map_err(|e| e.to_string())?;
                let mut pending = vec![];
                for i in 0..9usize {
                    let (client, csub, addr) = (client.clone(), csub.clone(), server.addr);
                    pending.push(tokio::spawn(async move { within_pool(&client, addr, csub.send(RawMessage::new(format!("a{}", i % 3), i.to_string(), "b".into()), addr)).await }));
                }
                for (i, p) in pending.into_iter().enumerate() {
                    match (i % 3, p.await.map_err(|e| e.to_string())??) {
                        (0, Ok(m)) | (1, Err(HandlerError::MessageError(m))) => ensure(*m.header() == i.to_string(), || format!("call {} got another response", i))?,
                        (2, Err(HandlerError::InternalError(_))) => {}
                        (_, r) => return Err(format!("call {} got {}", i, match r { Ok(_) => "a success".to_string(), Err(e) => e.to_string() })),
                    }
                }
                Ok(())
            })
        });
        if c.done() { return; }
    }
    // many calls at once over one connection, of all outcomes and many sizes: each caller gets its own result
    let mut rng = c.rng(11);
    for round in 0..if c.thorough { 1000 } else { 8 } {
        if round > 1 && !c.more() { break; }
        let seed = rng.next();
        c.case(|| format!("40 calls of mixed outcomes and sizes at once, round {} (seed {})", round, seed), || {
            run(async {
                let mut rng = Rng::new(seed);
                let (tasks, buffer) = (1 + rng.below(16), 1 + rng.below(100));
                let server = Srv::start(|c| { c.tasks = tasks; c.buffer = buffer }).await?;
                let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                let e = |e: TChannelError| e.to_string();
                for (i, out) in [Outcome::Ok, Outcome::Msg, Outcome::General("gen".into()), Outcome::Internal].into_iter().enumerate() {
                    sub.register(format!("s{}", i), H::new(out.clone())).await.map_err(e)?;
                    sub.register_async(format!("a{}", i), HA(H::new(out))).await.map_err(e)?;
                }
                let client = std::sync::Arc::new(client()?);
                let csub = client.subchannel("svc").await.map_err(|e| e.to_string())?;
                let mut pending = vec![];
                for i in 0..40usize {
                    let k = rng.below(4);
                    let ep = format!("{}{}", rng.pick(&["s", "a"]), k);
                    let size = match rng.below(4) { 0 => rng.below(10), 1 => 65300 + rng.below(300), 2 => rng.below(200000), _ => 130700 + rng.below(400) };
                    let header = format!("{}{}", i, "h".repeat(if rng.below(4) == 0 { 65200 + rng.below(400) } else { rng.below(10) }));
                    let body: Vec<u8> = (0..size).map(|j| (i * 7 + j) as u8).collect();
                    let (client, csub, addr) = (client.clone(), csub.clone(), server.addr);
                    pending.push(tokio::spawn(async move {
                        let r = within_pool(&client, addr, csub.send(RawMessage::new(ep.clone(), header.clone(), body.clone().into()), addr)).await?;
                        match (k, r) {
                            (0, Ok(m)) | (1, Err(HandlerError::MessageError(m))) => {
                                ensure(*m.endpoint() == format!("R{}", ep) && *m.header() == header && m.body()[..] == body[..], || format!("call {} of {} bytes got another content", i, size))
                            }
                            (2, Err(HandlerError::InternalError(_))) | (3, Err(HandlerError::InternalError(_))) => Ok(()),
                            (_, r) => Err(format!("call {} to {} got {}", i, ep, match r { Ok(_) => "a success".to_string(), Err(e) => e.to_string().chars().take(200).collect() })),
                        }
                    }));
                }
                for p in pending { p.await.map_err(|e| e.to_string())??; }
                Ok(())
            })
        });
        if c.done() { return; }
    }
    for ok in [true, false] {
        c.case(|| format!("json call over loopback, success {}", ok), || {
            run(async {
                let server = Srv::start(|_| {}).await?;
                let sub = server.ch.subchannel("svc").await.map_err(|e| e.to_string())?;
                sub.register("ep", HJ(ok)).await.map_err(|e| e.to_string())?;
                let client = client()?;
                let csub = client.subchannel("svc").await.map_err(|e| e.to_string())?;
                let mut m = Map::new();
                m.insert("k".into(), serde_json::Value::from(7));
                let r: HandlerResult<JsonMessage> = within(csub.send(JsonMessage::new("ep".into(), Map::new(), m.clone()), server.addr)).await?;
                match (ok, r) {
                    (true, Ok(x)) | (false, Err(HandlerError::MessageError(x))) => ensure(x.body() == &m, || format!("{}", x)),
                    (_, r) => Err(format!("caller got {:?}", r)),
                }
            })
        });
    }
}
#[cfg(feature = "hooks")]
fn check_outcome(out: &Outcome, r: Result<(ResponseCode, RawMessage), String>, e: &str, h: &str, b: &str) -> Res {
    match (out, r) {
        (Outcome::Ok, Ok((ResponseCode::Ok, m))) | (Outcome::Msg, Ok((ResponseCode::Error, m))) => {
            ensure(*m.endpoint() == format!("R{}", e) && m.header() == h && m.body()[..] == *b.as_bytes(), || format!("response {}", m))
        }
        (Outcome::General(s), Err(x)) => ensure(x.contains(s.as_str()), || x),
        (Outcome::Internal, Err(x)) => ensure(x.contains("internal"), || x),
        (_, r) => Err(format!("adapter returned {:?}", r)),
    }
}
