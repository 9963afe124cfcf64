//! Interleavings of operations on one id of a FramesDispatcher, against all sequential explanations.
//! The operations are started in a chosen order while a delivery to another exchange, whose input is full, is in progress
//! (which is what makes operations wait for each other), then run to their ends in a chosen order.
use crate::util::*;
use bytes::Bytes;
use futures::task::noop_waker;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use tchannel_rs::verif_hooks::*;
use tokio::sync::mpsc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Register, Deregister, Dispatch, Following, Close }
use Op::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out { Ok, Err, Removed, Absent, Delivered, New, Done }

const ID: u32 = 7;
const BUSY: u32 = 100;

fn fr(id: u32, n: u32) -> TFrameId {
    TFrameId::new(id, TFrame::new(Type::CallRequestContinue, Bytes::from(n.to_be_bytes().to_vec())))
}

/// What was seen: results, and for each operation that may own the id the frames its input got and whether it is still registered.
#[derive(Clone, Debug, PartialEq)]
struct Seen { out: Vec<Option<Out>>, inputs: Vec<Option<(Vec<u32>, bool)>> }

#[derive(Clone)]
struct Model { owner: Option<usize>, closed: bool, seen: Seen, looked: Vec<bool>, frames: Vec<Vec<u32>> }

impl Model {
    fn finish(&self, n: usize, first: bool) -> Seen {
        let mut s = self.seen.clone();
        for i in 0..n {
            if matches!(s.out[i], Some(Out::New)) || s.inputs[i].is_some() { s.inputs[i] = Some((self.frames[i].clone(), self.owner == Some(i))); }
        }
        if first { s.inputs[n] = Some((self.frames[n].clone(), self.owner == Some(n))); }
        s
    }
}

/// Whether some order of the operations explains what was seen. A dispatch is a lookup and then, if that found nothing, a registration.
fn explained(ops: &[Op], m: &Model, first: bool, want: &Seen) -> bool {
    let n = ops.len();
    if m.seen.out.iter().all(|o| o.is_some()) { return m.finish(n, first) == *want; }
    for i in 0..n {
        if m.seen.out[i].is_some() { continue; }
        let mut tries: Vec<Model> = vec![];
        let mut go = |f: &dyn Fn(&mut Model)| { let mut x = m.clone(); f(&mut x); tries.push(x); };
        match ops[i] {
            Register if m.closed || m.owner.is_some() => go(&|x| x.seen.out[i] = Some(Out::Err)),
            Register => go(&|x| { x.owner = Some(i); x.seen.out[i] = Some(Out::Ok) }),
            Deregister => go(&|x| x.seen.out[i] = Some(if x.owner.take().is_some() { Out::Removed } else { Out::Absent })),
            Following | Dispatch if m.owner.is_some() => {
                go(&|x| { x.frames[m.owner.unwrap()].push(i as u32); x.seen.out[i] = Some(if ops[i] == Following { Out::Ok } else { Out::Delivered }) });
                if ops[i] == Dispatch && m.looked[i] { go(&|x| x.seen.out[i] = Some(Out::Err)); }
            }
            Following => go(&|x| x.seen.out[i] = Some(Out::Err)),
            Dispatch => {
                if !m.looked[i] { go(&|x| x.looked[i] = true); }
                go(&|x| { x.owner = Some(i); x.frames[i].push(i as u32); x.seen.out[i] = Some(Out::New) });
                if m.closed { go(&|x| x.seen.out[i] = Some(Out::Err)); }
            }
            Close => go(&|x| { x.owner = None; x.closed = true; x.seen.out[i] = Some(Out::Done) }),
        }
        if tries.iter().any(|x| explained(ops, x, first, want)) { return true; }
    }
    false
}

fn drain(rx: &mut FrameInput) -> Result<(Vec<u32>, bool), String> {
    let mut got = vec![];
    loop {
        match rx.try_recv() {
            Ok(f) if *f.id() == ID => got.push(u32::from_be_bytes(f.frame().payload()[..4].try_into().unwrap())),
            Ok(f) => return Err(format!("an input of id {} received a frame of {}", ID, f.id())),
            Err(e) => return Ok((got, e == mpsc::error::TryRecvError::Empty)),
        }
    }
}

/// `before`: how many operations start before the delivery in progress goes on. `first`: the id is registered to begin with.
fn run_one(ops: &[Op], before: usize, first: bool, backwards: bool, busy_too: bool) -> Res {
    let d = FramesDispatcher::new(50);
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    let n = ops.len();
    let mut inputs: Vec<Option<FrameInput>> = (0..=n).map(|_| None).collect();
    let now = |f: &mut dyn FnMut(&mut Context) -> bool, cx: &mut Context| -> Res { for _ in 0..100 { if f(cx) { return Ok(()); } } Err("an operation of an idle dispatcher does not end".into()) };
    let (busy_tx, mut busy_rx) = mpsc::channel(1);
    busy_tx.try_send(fr(BUSY, 0)).map_err(|_| "full")?;
    if busy_too {
        let mut f = Box::pin(d.register(BUSY, busy_tx));
        now(&mut |cx| f.as_mut().poll(cx).is_ready(), &mut cx)?;
    }
    if first {
        let (tx, rx) = mpsc::channel(50);
        inputs[n] = Some(rx);
        let mut f = Box::pin(d.register(ID, tx));
        now(&mut |cx| f.as_mut().poll(cx).is_ready(), &mut cx)?;
    }
    type Job<'a> = Pin<Box<dyn Future<Output = (Out, Option<FrameInput>)> + 'a>>;
    let mut jobs: Vec<Option<Job>> = vec![];
    for (i, op) in ops.iter().enumerate() {
        let d = &d;
        jobs.push(Some(match op {
            Register => {
                let (tx, rx) = mpsc::channel(50);
                inputs[i] = Some(rx);
                Box::pin(async move { (if d.register(ID, tx).await.is_ok() { Out::Ok } else { Out::Err }, None) })
            }
            Deregister => Box::pin(async move { (if d.deregister(&ID).await.is_some() { Out::Removed } else { Out::Absent }, None) }),
            Dispatch => Box::pin(async move { match d.dispatch(fr(ID, i as u32)).await { Ok(None) => (Out::Delivered, None), Ok(Some(rx)) => (Out::New, Some(rx)), Err(_) => (Out::Err, None) } }),
            Following => Box::pin(async move { (if d.dispatch_following(fr(ID, i as u32)).await.is_ok() { Out::Ok } else { Out::Err }, None) }),
            Close => Box::pin(async move { d.close().await; (Out::Done, None) }),
        }));
    }
    let mut out: Vec<Option<Out>> = vec![None; n];
    let mut busy: Pin<Box<dyn Future<Output = ()>>> = if busy_too { Box::pin(async { let _ = d.dispatch_following(fr(BUSY, 1)).await; }) } else { Box::pin(async {}) };
    let mut done = busy.as_mut().poll(&mut cx).is_ready();
    let mut step = |i: usize, jobs: &mut Vec<Option<Job>>, cx: &mut Context| {
        let Some(job) = jobs[i].as_mut() else { return };
        if let Poll::Ready((o, rx)) = job.as_mut().poll(cx) {
            jobs[i] = None;
            out[i] = Some(o);
            if rx.is_some() { inputs[i] = rx; }
        }
    };
    for i in 0..before { step(i, &mut jobs, &mut cx); }
    // makes place for the frame in progress; its input stays full until the operations are done
    let _ = busy_rx.try_recv();
    for round in 0..200 {
        if !done && (round > 0 || !backwards) { done = busy.as_mut().poll(&mut cx).is_ready(); }
        if round > 100 { while busy_rx.try_recv().is_ok() {} }
        for i in 0..n { step(if backwards { n - 1 - i } else { i }, &mut jobs, &mut cx); }
    }
    ensure(done, || "the delivery in progress never ends".into())?;
    if let Some(i) = jobs.iter().position(|j| j.is_some()) { return Err(format!("operation {} never ends", i)); }
    while busy_rx.try_recv().is_ok() {}
    let ended = matches!(busy_rx.try_recv(), Err(mpsc::error::TryRecvError::Disconnected));
    ensure(!busy_too || ended == ops.contains(&Close), || format!("the other exchange ended: {}", ended))?;
    let mut seen = Seen { out, inputs: vec![] };
    for rx in &mut inputs {
        seen.inputs.push(match rx { Some(rx) => Some(drain(rx)?), None => None });
    }
    let owned = (0..=n).map(|i| if i < n && ops[i] == Register { Some((vec![], false)) } else { None }).collect();
    let m = Model { owner: first.then_some(n), closed: false, seen: Seen { out: vec![None; n], inputs: owned }, looked: vec![false; n], frames: vec![vec![]; n + 1] };
    ensure(explained(ops, &m, first, &seen), || format!("no order of these operations explains the results {:?} and inputs (frames, still registered) {:?}", seen.out, seen.inputs))
}

/// All sequences of `len` operations out of `kinds`.
pub fn explore(c: &mut Ctx, kinds: &[Op], len: usize) {
    for k in 0..kinds.len().pow(len as u32) {
        let mut x = k;
        let ops: Vec<Op> = (0..len).map(|_| { let o = kinds[x % kinds.len()]; x /= kinds.len(); o }).collect();
        for before in 0..=len {
            for first in [false, true] {
                for backwards in [false, true] {
                    c.case(|| format!("{:?} at once, {} of them during a delivery, id registered {}, backwards {}", ops, before, first, backwards), || run_one(&ops, before, first, backwards, true));
                }
                if before == 0 { c.case(|| format!("{:?} at once, id registered {}, nothing else", ops, first), || run_one(&ops, before, first, false, false)); }
            }
        }
        if c.done() { return; }
    }
}
