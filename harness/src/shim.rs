//! The assumed contracts of external crates (contracts/10_shim.vc, 12_std.vc, head of 50_connection.vc), sampled on the real crates:
//! every operation is compared with the mathematical value its contract gives.
use crate::net::run;
use crate::util::*;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use futures::StreamExt;
use std::collections::{HashMap, VecDeque};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::{mpsc, Mutex, RwLock, Semaphore};

fn be(v: u64, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| (v / 256u64.pow(i as u32) % 256) as u8).collect()
}
fn of(b: &[u8]) -> u64 {
    b.iter().fold(0u64, |a, x| a.wrapping_mul(256).wrapping_add(*x as u64))
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    ensure(got == want, || format!("{}: {:?} instead of {:?}", what, got, want))
}

fn bytes_mut(r: &mut Rng) -> Res {
    let (mut b, mut m) = (BytesMut::new(), Vec::<u8>::new());
    for _ in 0..60 {
        let n = r.below(m.len() + 1);
        let v = r.next();
        match r.below(24) {
            0 => { b.put_u8(v as u8); m.push(v as u8) }
            1 => { b.put_u16(v as u16); m.extend(be(v & 0xffff, 2)) }
            2 => { b.put_u32(v as u32); m.extend(be(v & 0xffff_ffff, 4)) }
            3 => { b.put_u64(v); m.extend(be(v, 8)) }
            4 => { let x = r.bytes(n % 40); b.put_slice(&x); m.extend(x) }
            5 => { let x = r.bytes(n % 40); b.extend_from_slice(&x); m.extend(x) }
            6 => { let x = r.bytes(n % 40); b.put(Bytes::from(x.clone())); m.extend(x) }
            7 => { let s = r.text(20); use std::fmt::Write; eq("write_str", b.write_str(&s).is_ok(), true)?; m.extend(s.bytes()) }
            8 => { b.put_bytes(v as u8, n % 9); m.extend(vec![v as u8; n % 9]) }
            9 => { b.reserve(n * 3) }
            10 if !m.is_empty() => { eq("get_u8", b.get_u8(), m[0])?; m.remove(0); }
            11 if m.len() >= 2 => { eq("get_u16", b.get_u16() as u64, of(&m[..2]))?; m.drain(..2); }
            12 if m.len() >= 4 => { eq("get_u32", b.get_u32() as u64, of(&m[..4]))?; m.drain(..4); }
            13 if m.len() >= 8 => { eq("get_u64", b.get_u64(), of(&m[..8]))?; m.drain(..8); }
            14 => { b.advance(n); m.drain(..n); }
            15 => { let x = b.split_to(n); eq("split_to", x.to_vec(), m.drain(..n).collect())? }
            16 => { let x = b.split_off(n); eq("split_off", x.to_vec(), m.split_off(n))? }
            17 => { let x = b.split(); eq("split", x.to_vec(), std::mem::take(&mut m))?; b.unsplit(x.clone()); m = x.to_vec() }
            18 => { let k = n + r.below(3); b.truncate(k); m.truncate(k) }
            19 if r.below(4) == 0 => { b.clear(); m.clear() }
            20 => { let k = r.below(80); b.resize(k, v as u8); m.resize(k, v as u8) }
            21 => { let x = b.copy_to_bytes(n); eq("copy_to_bytes", x.to_vec(), m.drain(..n).collect())? }
            22 => { let x = r.bytes(n % 30); b.unsplit(BytesMut::from(&x[..])); m.extend(x) }
            _ => { eq("slice_to", b[..n].to_vec(), m[..n].to_vec())?; eq("slice_from", b[n..].to_vec(), m[n..].to_vec())? }
        }
        eq("value", b.as_ref(), &m[..])?;
        eq("chunk", b.chunk(), &m[..])?;
        eq("lengths", (b.len(), b.remaining(), b.is_empty(), b.has_remaining()), (m.len(), m.len(), m.is_empty(), !m.is_empty()))?;
        ensure(b.capacity() >= m.len(), || "capacity".into())?;
    }
    eq("freeze", b.freeze().to_vec(), m)
}

fn bytes(r: &mut Rng) -> Res {
    let m0 = r.bytes(80);
    let (mut b, mut m) = (Bytes::from(m0.clone()), m0);
    eq("copy_from_slice", Bytes::copy_from_slice(&m).to_vec(), m.clone())?;
    let s = r.text(10);
    eq("from text", Bytes::from(s.clone()).to_vec(), s.into_bytes())?;
    eq("empty", (Bytes::new().len(), Bytes::default().len(), BytesMut::default().len(), BytesMut::with_capacity(9).len()), (0, 0, 0, 0))?;
    for _ in 0..25 {
        let n = r.below(m.len() + 1) / 2;
        match r.below(10) {
            0 if !m.is_empty() => { eq("get_u8", b.get_u8(), m[0])?; m.remove(0); }
            1 if m.len() >= 2 => { eq("get_u16", b.get_u16() as u64, of(&m[..2]))?; m.drain(..2); }
            2 if m.len() >= 4 => { eq("get_u32", b.get_u32() as u64, of(&m[..4]))?; m.drain(..4); }
            3 if m.len() >= 8 => { eq("get_u64", b.get_u64(), of(&m[..8]))?; m.drain(..8); }
            4 => { b.advance(n); m.drain(..n); }
            5 => { let x = b.split_to(n); eq("split_to", x.to_vec(), m.drain(..n).collect())? }
            6 => { let k = m.len() - n; let x = b.split_off(k); eq("split_off", x.to_vec(), m.split_off(k))? }
            7 => { let x = b.copy_to_bytes(n); eq("copy_to_bytes", x.to_vec(), m.drain(..n).collect())? }
            8 => { let k = m.len() + 1 - n; b.truncate(k); m.truncate(k) }
            _ => { eq("slice", b.slice(..n).to_vec(), m[..n].to_vec())?; b = b.clone() }
        }
        eq("value", b.as_ref(), &m[..])?;
        eq("chunk", b.chunk(), &m[..])?;
        eq("lengths", (b.len(), b.remaining(), b.is_empty(), b.has_remaining()), (m.len(), m.len(), m.is_empty(), !m.is_empty()))?;
    }
    if m.len() >= 3 {
        let mut c = std::io::Cursor::new(&m[..]);
        eq("cursor", c.get_u16() as u64, of(&m[..2]))?;
        eq("cursor rest", c.remaining(), m.len() - 2)?;
    }
    b.clear();
    eq("clear", b.len(), 0)
}

fn collections(r: &mut Rng) -> Res {
    let (mut h, mut m): (HashMap<String, u32>, Vec<(String, u32)>) = Default::default();
    let (mut d, mut s): (VecDeque<u32>, Vec<u32>) = Default::default();
    for _ in 0..60 {
        let (k, v) = (format!("k{}", r.below(6)), r.next() as u32);
        let at = m.iter().position(|x| x.0 == k);
        match r.below(5) {
            0 | 1 => { eq("insert", h.insert(k.clone(), v), at.map(|i| m[i].1))?; match at { Some(i) => m[i].1 = v, None => m.push((k, v)) } }
            2 => { eq("remove", h.remove(&k), at.map(|i| m.remove(i).1))? }
            3 if r.below(9) == 0 => { h.clear(); m.clear() }
            _ => { eq("get", h.get(k.as_str()).copied(), at.map(|i| m[i].1))?; eq("contains_key", h.contains_key(&k), at.is_some())? }
        }
        eq("map lengths", (h.len(), h.is_empty()), (m.len(), m.is_empty()))?;
        match r.below(8) {
            0 | 1 => { d.push_back(v); s.push(v) }
            2 => { d.push_front(v); s.insert(0, v) }
            3 => { let w = if s.is_empty() { None } else { Some(s.remove(0)) }; eq("pop_front", d.pop_front(), w)? }
            4 => eq("pop_back", d.pop_back(), s.pop())?,
            5 => { let n = r.below(12); d.truncate(n); s.truncate(n) }
            6 => { let mut o: VecDeque<u32> = [v, v + 0].into(); d.append(&mut o); s.extend([v, v]); eq("append", o.len(), 0)? }
            _ => { let n = r.below(12); eq("get", d.get(n), s.get(n))? }
        }
        eq("ends", (d.front(), d.back(), d.len()), (s.first(), s.last(), s.len()))?;
        eq("order", d.iter().copied().collect::<Vec<_>>(), s.clone())?;
    }
    let mut e: Vec<(String, u32)> = h.into_iter().collect();
    e.sort();
    m.sort();
    eq("entries", e, m)
}

fn texts(r: &mut Rng) -> Res {
    let t = r.text(24);
    let b = t.clone().into_bytes();
    eq("from_utf8", String::from_utf8(b.clone()).ok(), Some(t.clone()))?;
    for n in 0..=b.len() {
        eq("boundary", t.is_char_boundary(n), String::from_utf8(b[..n].to_vec()).is_ok())?;
        if t.is_char_boundary(n) { let mut x = t.clone(); x.truncate(n); eq("truncate", x.into_bytes(), b[..n].to_vec())? }
    }
    let raw = { let n = r.below(6); r.bytes(n) };
    let valid = String::from_utf8_lossy(&raw).as_bytes() == &raw[..];
    eq("validity", String::from_utf8(raw.clone()).map(|s| s.into_bytes()).ok(), if valid { Some(raw.clone()) } else { None })?;
    let u = r.text(24);
    eq("json text", serde_json::from_str::<serde_json::Map<String, serde_json::Value>>(&serde_json::to_string(&serde_json::json!({ t.clone(): u.clone() })).unwrap()).ok(), serde_json::json!({ t: u }).as_object().cloned())
}

async fn channels(mut r: Rng) -> Res {
    let n = 1 + r.below(4);
    let (tx, mut rx) = mpsc::channel::<u32>(n);
    let count = r.below(20) as u32;
    let t = { let tx = tx.clone(); tokio::spawn(async move { for i in 0..count { if tx.send(i).await.is_err() { return false } } true }) };
    for i in 0..count { eq("delivery", rx.recv().await, Some(i))?; }
    eq("all sent", t.await.ok(), Some(true))?;
    drop(tx);
    eq("end", rx.recv().await, None)?;
    let (tx, rx) = mpsc::channel::<u32>(n);
    let blocked = { let tx = tx.clone(); tokio::spawn(async move { for i in 0..=n as u32 { if let Err(e) = tx.send(i).await { return Some((i, e.0)) } } None }) };
    tokio::task::yield_now().await;
    drop(rx);
    if let Some((i, back)) = blocked.await.map_err(|e| e.to_string())? { eq("message given back", back, i)? } else { return Err("sent more than fits".into()) }
    eq("send to a dropped receiver", tx.send(7).await.map_err(|e| e.0), Err(7))?;
    // a channel that lost its senders delivers what it holds
    let (tx, rx) = mpsc::channel::<u32>(4);
    for i in 0..3 { tx.send(i).await.map_err(|e| e.to_string())?; }
    drop(tx);
    eq("rest", tokio_stream(rx).await, vec![0, 1, 2])
}
async fn tokio_stream(rx: mpsc::Receiver<u32>) -> Vec<u32> {
    futures::stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|x| (x, rx)) }).ready_chunks(2).concat().await
}

async fn locks(_r: Rng) -> Res {
    let (rw, mx) = (Arc::new(RwLock::new(0u32)), Arc::new(Mutex::new(0u32)));
    let mut ts = vec![];
    for _ in 0..8 {
        let (rw, mx) = (rw.clone(), mx.clone());
        ts.push(tokio::spawn(async move {
            for _ in 0..20 {
                { let mut g = rw.write().await; let x = *g; tokio::task::yield_now().await; *g = x + 1; }
                { let mut g = mx.lock().await; let x = *g; tokio::task::yield_now().await; *g = x + 1; }
                let a = rw.read().await; let x = *a; tokio::task::yield_now().await;
                if x != *a { return false }
            }
            true
        }));
    }
    for t in ts { eq("a reader sees no write", t.await.ok(), Some(true))?; }
    eq("transactions", (*rw.read().await, *mx.lock().await), (160, 160))?;
    let s = Semaphore::new(2);
    let a = s.acquire().await.map_err(|e| e.to_string())?;
    let b = s.acquire().await.map_err(|e| e.to_string())?;
    ensure(s.try_acquire().is_err(), || "a third permit of two".into())?;
    drop(a);
    let c = s.try_acquire().map_err(|e| e.to_string())?;
    drop((b, c));
    eq("permits back", s.available_permits(), 2)?;
    let h = tokio::spawn(async { tokio::time::sleep(Duration::from_secs(3600)).await });
    h.abort();
    ensure(h.await.err().map_or(false, |e| e.is_cancelled()), || "an aborted task ends".into())
}

/// a stream that yields an error ends after it: what `FramedRead` does with a decoder that fails
async fn framed(mut r: Rng) -> Res {
    struct D;
    impl tokio_util::codec::Decoder for D {
        type Item = u8;
        type Error = std::io::Error;
        fn decode(&mut self, src: &mut BytesMut) -> Result<Option<u8>, std::io::Error> {
            if src.is_empty() { return Ok(None) }
            match src.get_u8() { 255 => Err(std::io::ErrorKind::InvalidData.into()), b => Ok(Some(b)) }
        }
    }
    let n = r.below(30);
    let data: Vec<u8> = (0..n).map(|_| 240 + r.below(16) as u8).collect();
    let want: Vec<Option<u8>> = { let e = data.iter().position(|b| *b == 255); data[..e.map_or(n, |i| i + 1)].iter().map(|b| if *b == 255 { None } else { Some(*b) }).collect() };
    let got: Vec<Option<u8>> = tokio_util::codec::FramedRead::new(&data[..], D).map(|x| x.ok()).collect().await;
    eq("frames up to the first error", got, want)
}

pub fn shim(c: &mut Ctx) {
    let rounds = if c.thorough { 2000 } else { 150 };
    let mut r = Rng::new(c.seed);
    for i in 0..rounds {
        for (name, f) in [("BytesMut", bytes_mut as fn(&mut Rng) -> Res), ("Bytes", bytes), ("HashMap and VecDeque", collections), ("texts", texts)] {
            let mut r = Rng::new(r.next());
            c.case(|| format!("{} {}", name, i), || f(&mut r));
        }
        if i % 5 == 0 {
            let (a, b, d) = (Rng::new(r.next()), Rng::new(r.next()), Rng::new(r.next()));
            c.case(|| format!("channels {}", i), || run(channels(a)));
            c.case(|| format!("locks {}", i), || run(locks(b)));
            c.case(|| format!("FramedRead {}", i), || run(framed(d)));
        }
        if c.done() { return; }
    }
}
