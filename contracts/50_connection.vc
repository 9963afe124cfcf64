@# effects: every function that acts on shared state takes the log of its own atomic actions (World). What other tasks do
@# between two of them is arbitrary: a lock hands out any state, a load any value.
@@ use tokio::sync::mpsc::Sender => crate::shim::Sender
@@ use tokio::sync::mpsc => crate::shim::mpsc
@@ use tokio::sync::RwLock => crate::shim::RwLock
@@ use tokio::sync::Mutex => crate::shim::Mutex
@@ use std::sync::Arc => crate::shim::Arc
@@ use std::mem::drop => crate::shim::vp_drop_value
@@ use std::sync::atomic::AtomicBool => crate::shim::AtomicBool
@@ use std::sync::atomic::AtomicU32 => crate::shim::AtomicU32
@@ use std::sync::atomic::Ordering => crate::shim::Ordering
@@ use tokio_util::codec::FramedRead => crate::shim::FramedRead
@@ use tokio_util::codec::FramedWrite => crate::shim::FramedWrite
@@ use tokio::net::tcp::OwnedReadHalf => crate::shim::OwnedReadHalf
@@ use tokio::net::tcp::OwnedWriteHalf => crate::shim::OwnedWriteHalf
@@ use tokio_stream::wrappers::ReceiverStream => crate::shim::ReceiverStream
@@ world send/1 lock/0! flush/0 read/0 write/0 load/1! store/2! fetch_add/2! fetch_sub/2! swap/2! compare_exchange/4! compare_exchange_weak/4!
@@ module shim
    use crate::spec::Ev;
    pub use std::sync::Arc;
    #[verifier::external_body] pub tracked struct World { _x: u8 }
    impl View for World { type V = Seq<Ev>; uninterp spec fn view(&self) -> Seq<Ev>; }
    impl World {
        /// the semaphores of which the handling at hand holds a permit
        pub uninterp spec fn held(&self) -> Set<int>;
    }
    impl World { pub axiom fn vp_fresh() -> (tracked r: World) ensures r@ == Seq::<Ev>::empty(); }
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct JoinHandle<T> { _x: T }
    impl<T> JoinHandle<T> {
        /// the task it belongs to
        pub uninterp spec fn task(&self) -> int;
        #[verifier::external_body] pub fn abort(&self, Tracked(w): Tracked<&mut World>) ensures final(w)@ == old(w)@.push(Ev::Abort { task: self.task() }) { unimplemented!() }
        #[verifier::external_body] pub fn is_finished(&self) -> (r: bool) { unimplemented!() }
    }
    /// starting a task; its body has been run, in the verified text, on the log it is given here
    #[verifier::external_body] pub fn vp_spawned<T>(Tracked(w): Tracked<&mut World>, Tracked(log): Tracked<World>, value: T) -> (r: JoinHandle<T>)
        ensures final(w)@ == old(w)@.push(Ev::Task { log: log@ }) { unimplemented!() }
    pub fn vp_drop_value<T>(_t: T) {}
    // ---------- tokio mpsc
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Sender<T> { _x: T }
    impl<T> Sender<T> { pub uninterp spec fn chan(&self) -> int; }
    impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Sender<T>) ensures r == *self { unimplemented!() } }
    impl<T> Receiver<T> { pub uninterp spec fn chan(&self) -> int; }
    /// what will be received from a channel before its end
    pub uninterp spec fn arrives<T>(chan: int) -> Seq<T>;
    impl<T: VpMsg> Sender<T> {
        #[verifier::external_body] pub async fn send(&self, m: T, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendError<T>>)
            requires m.msg_ok()
            ensures match r { Ok(_) => final(w)@ == old(w)@.push(T::sent(self.chan(), m)), Err(e) => final(w)@ == old(w)@.push(Ev::Gone { chan: self.chan() }) && e.0 == m } { unimplemented!() }
    }
    pub mod mpsc {
        use super::*;
        #[verifier::external_body] pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>))
            ensures r.0.chan() == r.1.chan(), r.1@ == arrives::<T>(r.1.chan()) { unimplemented!() }
    }
    // ---------- locks: one transaction from the state found to the state left when the guard goes
    pub trait VpState: Sized {
        spec fn txn(lock: int, pre: Self, post: Self) -> Seq<Ev>;
        /// what no operation on such a state changes
        spec fn keeps(first: Self, now: Self) -> bool;
    }
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RwLock<T> { _x: T }
    impl<T> RwLock<T> {
        pub uninterp spec fn id(&self) -> int;
        /// the state it was created with
        pub uninterp spec fn first(&self) -> T;
        #[verifier::external_body] pub fn new(t: T) -> (r: RwLock<T>) ensures r.first() == t { unimplemented!() }
    }
    impl<T: VpState> RwLock<T> {
        #[verifier::external_body] pub async fn write<'a>(&'a self, Tracked(w): Tracked<&mut World>) -> (r: &'a mut T)
            ensures final(w)@ == old(w)@ + T::txn(self.id(), *r, *final(r)), T::keeps(self.first(), *r), final(w).held() == old(w).held() { unimplemented!() }
        #[verifier::external_body] pub async fn read<'a>(&'a self, Tracked(w): Tracked<&mut World>) -> (r: &'a T)
            ensures final(w)@ == old(w)@ + T::txn(self.id(), *r, *r), T::keeps(self.first(), *r), final(w).held() == old(w).held() { unimplemented!() }
    }
    impl<T: Default> Default for RwLock<T> { #[verifier::external_body] fn default() -> (r: RwLock<T>) ensures call_ensures(T::default, (), r.first()) { unimplemented!() } }
    // ---------- atomics
    pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
    #[verifier::external_body] pub struct AtomicBool { _x: u8 }
    #[verifier::external_body] pub struct AtomicU32 { _x: u8 }
    impl AtomicBool {
        pub uninterp spec fn id(&self) -> int;
        pub uninterp spec fn first(&self) -> bool;
        #[verifier::external_body] pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures final(w)@ == old(w)@.push(Ev::Load { cell: self.id(), val: r }) { unimplemented!() }
        #[verifier::external_body] pub fn store(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World>) ensures final(w)@ == old(w)@.push(Ev::Store { cell: self.id(), val: v }) { unimplemented!() }
    }
    impl AtomicU32 {
        pub uninterp spec fn id(&self) -> int;
        pub uninterp spec fn first(&self) -> u32;
        #[verifier::external_body] pub fn fetch_add(&self, n: u32, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: u32) ensures final(w)@ == old(w)@.push(Ev::Fetch { cell: self.id(), fpre: r, fpost: ((r + n) % 0x1_0000_0000) as u32 }) { unimplemented!() }
    }
    impl AtomicBool {
        #[verifier::external_body] pub fn swap(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures final(w)@ == old(w)@.push(Ev::Swap { cell: self.id(), bpre: r, bpost: v }) { unimplemented!() }
    }
    impl AtomicU32 {
        #[verifier::external_body] pub fn load(&self, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: u32) ensures final(w)@ == old(w)@.push(Ev::Seen { cell: self.id(), seen: r }) { unimplemented!() }
        #[verifier::external_body] pub fn store(&self, v: u32, o: Ordering, Tracked(w): Tracked<&mut World>) ensures final(w)@ == old(w)@.push(Ev::Set { cell: self.id(), set: v }) { unimplemented!() }
        #[verifier::external_body] pub fn swap(&self, v: u32, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: u32) ensures final(w)@ == old(w)@.push(Ev::Fetch { cell: self.id(), fpre: r, fpost: v }) { unimplemented!() }
        #[verifier::external_body] pub fn fetch_sub(&self, n: u32, o: Ordering, Tracked(w): Tracked<&mut World>) -> (r: u32) ensures final(w)@ == old(w)@.push(Ev::Fetch { cell: self.id(), fpre: r, fpost: ((r - n) % 0x1_0000_0000) as u32 }) { unimplemented!() }
        #[verifier::external_body] pub fn compare_exchange(&self, a: u32, b: u32, o: Ordering, e: Ordering, Tracked(w): Tracked<&mut World>) -> (r: Result<u32, u32>)
            ensures match r { Ok(x) => x == a && final(w)@ == old(w)@.push(Ev::Fetch { cell: self.id(), fpre: a, fpost: b }), Err(x) => final(w)@ == old(w)@.push(Ev::Seen { cell: self.id(), seen: x }) } { unimplemented!() }
        #[verifier::external_body] pub fn compare_exchange_weak(&self, a: u32, b: u32, o: Ordering, e: Ordering, Tracked(w): Tracked<&mut World>) -> (r: Result<u32, u32>)
            ensures match r { Ok(x) => x == a && final(w)@ == old(w)@.push(Ev::Fetch { cell: self.id(), fpre: a, fpost: b }), Err(x) => final(w)@ == old(w)@.push(Ev::Seen { cell: self.id(), seen: x }) } { unimplemented!() }
    }
    impl Default for AtomicBool { #[verifier::external_body] fn default() -> (r: AtomicBool) ensures r.first() == false { unimplemented!() } }
    impl Default for AtomicU32 { #[verifier::external_body] fn default() -> (r: AtomicU32) ensures r.first() == 0 { unimplemented!() } }
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Mutex<T> { _x: T }
    impl<T> Mutex<T> {
        pub uninterp spec fn id(&self) -> int;
        pub uninterp spec fn first(&self) -> T;
        #[verifier::external_body] pub fn new(t: T) -> (r: Mutex<T>) ensures r.first() == t { unimplemented!() }
    }
    impl<T: VpState> Mutex<T> {
        #[verifier::external_body] pub async fn lock<'a>(&'a self, Tracked(w): Tracked<&mut World>) -> (r: &'a mut T)
            ensures final(w)@ == old(w)@ + T::txn(self.id(), *r, *final(r)), T::keeps(self.first(), *r), final(w).held() == old(w).held() { unimplemented!() }
    }
    // ---------- frames of a socket
    #[verifier::external_body] pub struct OwnedReadHalf { _x: u8 }
    #[verifier::external_body] pub struct OwnedWriteHalf { _x: u8 }
    #[verifier::external_body] #[verifier::accept_recursive_types(R)] #[verifier::accept_recursive_types(C)] pub struct FramedRead<R, C> { _r: R, _c: C }
    /// what the decoder makes of everything that is read from the socket up to its end or to the first thing that is no frame
    impl<R, C> View for FramedRead<R, C> { type V = Seq<Result<crate::frames::TFrameId, crate::errors::CodecError>>; uninterp spec fn view(&self) -> Self::V; }
    /// everything that comes from a socket, as frames
    pub uninterp spec fn incoming(conn: int) -> Seq<Result<crate::frames::TFrameId, crate::errors::CodecError>>;
    impl OwnedReadHalf { pub uninterp spec fn conn(&self) -> int; }
    impl OwnedWriteHalf { pub uninterp spec fn conn(&self) -> int; }
    impl FramedRead<OwnedReadHalf, crate::frames::TFrameIdCodec> {
        #[verifier::external_body] pub fn new(r: OwnedReadHalf, c: crate::frames::TFrameIdCodec) -> (s: Self) ensures s@ == incoming(r.conn()) { unimplemented!() }
    }
    impl FramedWrite<OwnedWriteHalf, crate::frames::TFrameIdCodec> {
        #[verifier::external_body] pub fn new(r: OwnedWriteHalf, c: crate::frames::TFrameIdCodec) -> (s: Self) ensures s.conn() == r.conn() { unimplemented!() }
    }
    impl<R> FramedRead<R, crate::frames::TFrameIdCodec> {
        #[verifier::external_body] pub async fn vp_next(&mut self) -> (r: Option<Result<crate::frames::TFrameId, crate::errors::CodecError>>)
            ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1) && (x is Ok ==> x->Ok_0.msg_ok()), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
        #[verifier::external_body] pub async fn next(&mut self) -> (r: Option<Result<crate::frames::TFrameId, crate::errors::CodecError>>)
            ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1) && (x is Ok ==> x->Ok_0.msg_ok()), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    }
    #[verifier::external_body] #[verifier::accept_recursive_types(R)] #[verifier::accept_recursive_types(C)] pub struct FramedWrite<R, C> { _r: R, _c: C }
    impl<R, C> FramedWrite<R, C> {
        pub uninterp spec fn conn(&self) -> int;
        #[verifier::external_body] pub async fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), crate::errors::CodecError>)
            ensures final(w)@ == old(w)@, final(self).conn() == old(self).conn() { unimplemented!() }
    }
    impl<R> FramedWrite<R, crate::frames::TFrameIdCodec> {
        #[verifier::external_body] pub async fn send(&mut self, m: crate::frames::TFrameId, Tracked(w): Tracked<&mut World>) -> (r: Result<(), crate::errors::CodecError>)
            ensures final(w)@ == old(w)@.push(Ev::Write { conn: old(self).conn(), frame: m, ok: r is Ok }), final(self).conn() == old(self).conn() { unimplemented!() }
    }
    /// a socket behind a lock stays the same socket
    impl<R, C> VpState for FramedWrite<R, C> {
        open spec fn txn(lock: int, pre: Self, post: Self) -> Seq<Ev> { seq![] }
        open spec fn keeps(first: Self, now: Self) -> bool { now.conn() == first.conn() }
    }
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct ReceiverStream<T> { _x: T }
    impl<T> View for ReceiverStream<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    pub open spec fn flat<T>(s: Seq<Vec<T>>) -> Seq<T>
        decreases s.len()
    { if s.len() == 0 { seq![] } else { s[0]@ + flat(s.skip(1)) } }
    impl<T> ReceiverStream<T> {
        #[verifier::external_body] pub fn new(r: Receiver<T>) -> (s: ReceiverStream<T>) ensures s@ == r@ { unimplemented!() }
        #[verifier::external_body] pub fn ready_chunks(self, n: usize) -> (r: VpStream<Vec<T>>) ensures flat(r@) == self@ { unimplemented!() }
    }
    impl<T> VpStream<T> {
        #[verifier::external_body] pub async fn vp_next(&mut self) -> (r: Option<T>)
            ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    }
@@ module spec
    use crate::connection::*;
    use crate::connection::pool::*;
    use crate::subchannel::*;
    use crate::config::Config;
    /// atomic actions
    pub enum Ev {
        /// a frame was put into a channel, or could not be because its receiver is gone
        Sent { chan: int, frame: TFrameId },
        Gone { chan: int },
        /// the pending ids of a connection went from one state to another
        Reg { lock: int, rpre: Map<u32, Sender<TFrameId>>, rpost: Map<u32, Sender<TFrameId>> },
        Load { cell: int, val: bool },
        Store { cell: int, val: bool },
        Fetch { cell: int, fpre: u32, fpost: u32 },
        Seen { cell: int, seen: u32 },
        Set { cell: int, set: u32 },
        Swap { cell: int, bpre: bool, bpost: bool },
        /// a frame was given to the frame encoder of a socket
        Write { conn: int, frame: TFrameId, ok: bool },
        /// a task was started; all it does, up to its end
        Task { log: Seq<Ev> },
        /// a connection to an address was tried
        Dial { daddr: SocketAddr, dok: bool },
        /// a server tried to listen on an address; it accepted a connection
        Listen { laddr: SocketAddr, lok: bool },
        Accept { aconn: int },
        /// the handlers of a subchannel, by endpoint name, went from one state to another
        Handlers { lock: int, kpre: Map<Seq<char>, HandlerRef>, kpost: Map<Seq<char>, HandlerRef> },
        /// a handler was used
        Used { hlock: int, hpre: Box<dyn MessageArgsHandler>, hpost: Box<dyn MessageArgsHandler> },
        /// the subchannels, by service name, went from one state to another
        Subs { lock: int, spre: Map<Seq<char>, Arc<SubChannel>>, spost: Map<Seq<char>, Arc<SubChannel>> },
        /// a server was started as a task, or the task was stopped
        Start { task: int, cfg: Arc<Config>, subs: int },
        Abort { task: int },
        /// the server task a channel remembers
        Handle { lock: int, opre: Option<int>, opost: Option<int> },
        /// the pools, by address, went from one state to another
        Pools { lock: int, ppre: Map<SocketAddr, Arc<Pool<ConnectionManager>>>, ppost: Map<SocketAddr, Arc<Pool<ConnectionManager>>> },
    }
    impl VpState for HashMap<u32, Sender<TFrameId>> {
        open spec fn txn(lock: int, pre: Self, post: Self) -> Seq<Ev> { seq![Ev::Reg { lock, rpre: pre@, rpost: post@ }] }
        open spec fn keeps(first: Self, now: Self) -> bool { true }
    }
    pub type Reg = Map<u32, Sender<TFrameId>>;
    pub open spec fn reg_ev(d: FramesDispatcher, p: Reg, q: Reg) -> Ev { Ev::Reg { lock: d.senders.id(), rpre: p, rpost: q } }
    /// the state found by the transaction that is event k of the log
    pub open spec fn found(l: Seq<Ev>, k: int) -> Reg { l[k]->rpre }
    /// a frame for an exchange that must exist
    pub open spec fn followed(d: FramesDispatcher, f: TFrameId, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        let p = found(l, l0.len() as int);
        if !p.contains_key(f.id) { !ok && l =~= l0 + seq![reg_ev(d, p, p)] }
        else { l =~= l0 + seq![reg_ev(d, p, p), if ok { Ev::Sent { chan: p[f.id].chan(), frame: f } } else { Ev::Gone { chan: p[f.id].chan() } }] }
    }
    /// a frame that starts an exchange
    pub open spec fn began(d: FramesDispatcher, f: TFrameId, l0: Seq<Ev>, l: Seq<Ev>, r: Option<int>) -> bool {
        let n = l0.len() as int; let p = found(l, n); let q = l[n]->rpost; let c = l[n + 1]->Gone_chan;
        if p.contains_key(f.id) { r is None && l =~= l0 + seq![reg_ev(d, p, p)] }
        else if r is Some { q == p.insert(f.id, q[f.id]) && r == Some(q[f.id].chan()) && l =~= l0 + seq![reg_ev(d, p, q), Ev::Sent { chan: r->0, frame: f }] }
        else { l =~= l0 + seq![reg_ev(d, p, p), Ev::Gone { chan: c }] }
    }
    /// opening an exchange under an id: refused when the id is in use or the connection is closed, and then nothing changes
    pub open spec fn registered(d: FramesDispatcher, id: u32, s: Sender<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        let n = l0.len() as int; let p = found(l, n);
        if ok { !p.contains_key(id) && l =~= l0 + seq![reg_ev(d, p, p.insert(id, s)), Ev::Load { cell: d.closed.id(), val: false }] }
        else { refused(d, id, l0, l) }
    }
    pub open spec fn refused(d: FramesDispatcher, id: u32, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        let n = l0.len() as int; let p = found(l, n); let b = l[n + 1]->Load_val;
        ||| (b || p.contains_key(id)) && l =~= l0 + seq![reg_ev(d, p, p), Ev::Load { cell: d.closed.id(), val: b }]
        ||| p.contains_key(id) && l =~= l0 + seq![reg_ev(d, p, p)]
    }
@@ item connection::FramesDispatcher
@@ item connection::FrameOutput
@@ item connection::Connection
@@ fn errors::<ConnectionError as From<SendError>>::from :: props=C12,C17
@ spec
    ensures r is MessageErrorId, r->MessageErrorId_1 == err.0.id,
@@ module errors
    impl vstd::std_specs::convert::FromSpecImpl<SendError<TFrameId>> for ConnectionError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: SendError<TFrameId>) -> Self; }
@@ fn connection::FramesDispatcher::new :: props=C12,C13,C18
@ spec
    ensures r.senders.first()@ == Map::<u32, Sender<TFrameId>>::empty(), r.closed.first() == false, r.buffer_size == buffer_size,
@@ fn connection::FramesDispatcher::dispatch :: props=C12,C17 world
@ spec
    requires frame.msg_ok()
    ensures ({ let l0 = old(vp_w)@; let l = final(vp_w)@; let n = l0.len() as int; let p = found(l, n);
        if p.contains_key(frame.id) { r is Ok && r->Ok_0 is None && (followed(*self, frame, l0, l, true) || followed(*self, frame, l0, l, false)) }
        else { (r is Ok ==> r->Ok_0 is Some && (r->Ok_0->0)@ == arrives::<TFrameId>((r->Ok_0->0).chan())) && l.len() > n && began(*self, frame, l0.push(reg_ev(*self, p, p)), l, if r is Ok { Some((r->Ok_0->0).chan()) } else { None }) }
    }),
@@ fn connection::FramesDispatcher::deregister :: props=C12,C13,C17 world
@ spec
    ensures ({ let p = found(final(vp_w)@, old(vp_w)@.len() as int); final(vp_w)@ =~= old(vp_w)@.push(reg_ev(*self, p, p.remove(*id))) }),
        final(vp_w).held() == old(vp_w).held(),
@@ fn connection::FramesDispatcher::register :: props=C12,C13,C18 world
@ spec
    ensures registered(*self, id, sender, old(vp_w)@, final(vp_w)@, r is Ok),
@@ fn connection::FramesDispatcher::close :: props=C12,C18 world
@ spec
    ensures closed_ev(*self, old(vp_w)@, final(vp_w)@),
@@ fn connection::FramesDispatcher::is_closed :: props=C18 world
@ spec
    ensures final(vp_w)@ =~= old(vp_w)@.push(Ev::Load { cell: self.closed.id(), val: r }),
@@ fn connection::FramesDispatcher::dispatch_first :: props=C12,C17 world
@ spec
    requires frame.msg_ok()
    ensures began(*self, frame, old(vp_w)@, final(vp_w)@, if r is Ok { Some(r->Ok_0.chan()) } else { None }), r is Ok ==> r->Ok_0@ == arrives::<TFrameId>(r->Ok_0.chan()),
@@ fn connection::FramesDispatcher::dispatch_following :: props=C12,C18 world
@ spec
    requires frame.msg_ok()
    ensures followed(*self, frame, old(vp_w)@, final(vp_w)@, r is Ok),
@@ fn connection::FrameOutput::new :: props=C13 auto
@@ fn connection::FrameOutput::send :: props=C11,C13 world
@ spec
    requires frame.payload@.len() <= 65535
    ensures final(vp_w)@ =~= old(vp_w)@.push(if r is Ok { Ev::Sent { chan: self.sender.chan(), frame: TFrameId { id: self.message_id, frame } } } else { Ev::Gone { chan: self.sender.chan() } }),
@@ fn connection::FrameOutput::close :: props=C12,C13 world
@ spec
    ensures ({ let p = found(final(vp_w)@, old(vp_w)@.len() as int); final(vp_w)@ =~= old(vp_w)@.push(reg_ev(*self.frames_dispatcher, p, p.remove(self.message_id))) }),
@@ fn connection::Connection::new :: props=C12,C13
@ spec
    ensures r.next_message_id.first() == 0, r.pending_ids.senders.first()@ == Map::<u32, Sender<TFrameId>>::empty(), r.pending_ids.closed.first() == false, r.sender == sender, r.buffer_size == buffer_size,
@@ fn connection::Connection::next_message_id :: props=C13 world
@ spec
    ensures final(vp_w)@ =~= old(vp_w)@.push(Ev::Fetch { cell: self.next_message_id.id(), fpre: r, fpost: ((r + 1) % 0x1_0000_0000) as u32 }),
@@ fn connection::Connection::is_closed :: props=C18 world
@ spec
    ensures final(vp_w)@ =~= old(vp_w)@.push(Ev::Load { cell: self.pending_ids.closed.id(), val: r }),
@@ module spec
    /// what opening an exchange on a connection does: a channel is registered under the next id
    pub open spec fn fetched(c: Connection, id: u32) -> Ev { Ev::Fetch { cell: c.next_message_id.id(), fpre: id, fpost: ((id + 1) % 0x1_0000_0000) as u32 } }
    pub open spec fn opening(c: Connection, id: u32, p: Reg, q: Reg) -> Seq<Ev> {
        seq![fetched(c, id), reg_ev(*c.pending_ids, p, q), Ev::Load { cell: c.pending_ids.closed.id(), val: false }]
    }
    /// the id and the channel an exchange got
    pub open spec fn got_id(l: Seq<Ev>, n: nat) -> u32 { l[n as int]->fpre }
    pub open spec fn got_chan(l: Seq<Ev>, n: nat) -> int { got_sender(l, n).chan() }
    pub open spec fn got_sender(l: Seq<Ev>, n: nat) -> Sender<TFrameId> { l[n as int + 1]->rpost[got_id(l, n)] }
    /// the exchange was opened and then `rest` happened
    pub open spec fn opened(c: Connection, l0: Seq<Ev>, l: Seq<Ev>, rest: Seq<Ev>) -> bool {
        let n = l0.len(); let id = got_id(l, n); let s = got_sender(l, n); let p = found(l, n as int + 1);
        !p.contains_key(id) && l =~= l0 + opening(c, id, p, p.insert(id, s)) + rest
    }
    /// no exchange was opened: the id is in use or the connection is closed
    pub open spec fn not_opened(c: Connection, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        let id = got_id(l, l0.len());
        refused(*c.pending_ids, id, l0.push(fetched(c, id)), l)
    }
@@ fn connection::Connection::new_frames_io :: props=C11,C12,C13,C18 world
@ spec
    ensures ({ let l = final(vp_w)@; let n = old(vp_w)@.len(); match r {
        Ok((rx, out)) => opened(*self, old(vp_w)@, l, seq![]) && rx.chan() == got_chan(l, n) && rx@ == arrives::<TFrameId>(rx.chan())
            && out.message_id == got_id(l, n) && out.sender == self.sender && out.frames_dispatcher == self.pending_ids,
        Err(_) => not_opened(*self, old(vp_w)@, l),
    } }),
@@ module spec
    /// one frame sent and one awaited on an exchange of its own
    pub open spec fn one_sent(c: Connection, f: TFrame, l0: Seq<Ev>, l: Seq<Ev>, r: ConnectionResult<TFrameId>) -> bool {
        let n = l0.len(); let id = got_id(l, n); let p = found(l, n as int + 4);
        let answers = arrives::<TFrameId>(got_chan(l, n));
        let done = opened(c, l0, l, seq![Ev::Sent { chan: c.sender.chan(), frame: TFrameId { id, frame: f } }, reg_ev(*c.pending_ids, p, p.remove(id))]);
        match r {
            Ok(x) => done && answers.len() > 0 && x == answers[0] && x.msg_ok(),
            Err(_) => done && answers.len() == 0 || not_opened(c, l0, l) || opened(c, l0, l, seq![Ev::Gone { chan: c.sender.chan() }]),
        }
    }
@@ fn connection::Connection::send_one :: props=C12,C13,C14,C18 world
@ spec
    requires frame.payload@.len() <= 65535
    ensures one_sent(*self, frame, old(vp_w)@, final(vp_w)@, r),
@@ item connection::FrameSender
@@ item connection::FrameReceiver
@@ module spec
    /// every frame is given to the frame encoder of the socket, once and in order
    pub open spec fn wrote(fs: Seq<TFrameId>, conn: int, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        &&& l.len() == l0.len() + fs.len()
        &&& forall|i: int| 0 <= i < l0.len() ==> #[trigger] l[i] == l0[i]
        &&& forall|i: int| l0.len() <= i < l.len() ==> #[trigger] l[i] == (Ev::Write { conn, frame: fs[i - l0.len()], ok: l[i]->ok })
    }
@@ fn connection::FrameSender::send_frames :: props=C13 world
@ spec
    ensures wrote(frames@, self.framed_write.first().conn(), old(vp_w)@, final(vp_w)@),
@ hint start
    let ghost vp_fs = frames@; let ghost mut vp_i: int = 0; let ghost vp_l0 = vp_w@; let ghost vp_c = self.framed_write.first().conn();
@ loop 0
    invariant 0 <= vp_i <= vp_fs.len(), vp_it0@ == vp_fs.skip(vp_i), framed_write.conn() == vp_c, wrote(vp_fs.take(vp_i), vp_c, vp_l0, vp_w@),
    ensures vp_i == vp_fs.len(),
    decreases vp_fs.len() - vp_i
@ hint loopend 0
    proof { vp_i = vp_i + 1; }
@ hint postloop 0
    proof { assert(vp_fs.take(vp_i) =~= vp_fs); }
@@ fn connection::FrameSender::run :: props=C13 world
@ spec
    ensures wrote(receiver_stream@, self.framed_write.first().conn(), old(vp_w)@, final(vp_w)@),
@ hint start
    let ghost vp_fs = receiver_stream@; let ghost mut vp_done: Seq<TFrameId> = seq![]; let ghost vp_l0 = vp_w@; let ghost vp_c = self.framed_write.first().conn();
@ loop 0
    invariant vp_fs == vp_done + flat(vp_s@), wrote(vp_done, vp_c, vp_l0, vp_w@), vp_c == self.framed_write.first().conn(),
    ensures vp_done == vp_fs,
    decreases vp_s@.len()
@ hint preloop 0
    proof { assert(vp_done + flat(vp_s@) =~= vp_fs); }
@ hint loopstart 0
    let ghost vp_s0 = vp_s@;
@ hint loopend 0
    proof { assert(vp_done + flat(vp_s0) =~= vp_done + vp_s0[0]@ + flat(vp_s@)); vp_done = vp_done + vp_s0[0]@; }
@ hint loopnone 0
    proof { assert(vp_done + flat(vp_s@) =~= vp_done); }
@@ module spec
    /// every frame that was read went to the exchange of its id, in order; what was no frame went nowhere
    pub open spec fn received(d: FramesDispatcher, items: Seq<Result<TFrameId, CodecError>>, l0: Seq<Ev>, l: Seq<Ev>) -> bool
        decreases items.len()
    {
        if items.len() == 0 { l == l0 } else { exists|mid: Seq<Ev>| received(d, items.drop_last(), l0, mid) && #[trigger] took(d, items.last(), mid, l) }
    }
    pub open spec fn took(d: FramesDispatcher, item: Result<TFrameId, CodecError>, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        match item { Err(_) => l == l0, Ok(f) => followed(d, f, l0, l, true) || followed(d, f, l0, l, false) }
    }
    pub proof fn lemma_received(d: &FramesDispatcher, items: Seq<Result<TFrameId, CodecError>>, l0: Seq<Ev>, mid: Seq<Ev>, l: Seq<Ev>)
        requires items.len() > 0, received(*d, items.drop_last(), l0, mid), took(*d, items.last(), mid, l)
        ensures received(*d, items, l0, l)
    {}
    /// the connection is closed: no pending id is left and no new one is accepted
    pub open spec fn closed_ev(d: FramesDispatcher, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        let p = found(l, l0.len() as int); l =~= l0 + seq![reg_ev(d, p, Map::empty()), Ev::Store { cell: d.closed.id(), val: true }]
    }
@@ fn connection::FrameReceiver::run :: props=C12,C18 world noawait=print_if_err_and_skip
@ spec
    ensures exists|mid: Seq<Ev>| #[trigger] received(*self.frame_senders, framed_read@, old(vp_w)@, mid) && closed_ev(*self.frame_senders, mid, final(vp_w)@),
@ hint start
    let ghost vp_all = framed_read@; let ghost mut vp_i: int = 0; let ghost vp_l0 = vp_w@;
    proof { assert(vp_all.take(0) =~= seq![]); }
@ loop 0
    invariant 0 <= vp_i <= vp_all.len(), vp_s@ == vp_all.skip(vp_i), received(*self.frame_senders, vp_all.take(vp_i), vp_l0, vp_w@),
    ensures vp_i == vp_all.len(),
    decreases vp_all.len() - vp_i
@ hint loopstart 0
    let ghost vp_m = vp_w@;
@ hint loopend 0
    proof { assert(vp_all.take(vp_i + 1).drop_last() =~= vp_all.take(vp_i)); assert(vp_all.take(vp_i + 1).last() == vp_all[vp_i]); assert(received(*self.frame_senders, vp_all.take(vp_i + 1).drop_last(), vp_l0, vp_m)); assert(took(*self.frame_senders, vp_all[vp_i], vp_m, vp_w@)); lemma_received(&*self.frame_senders, vp_all.take(vp_i + 1), vp_l0, vp_m, vp_w@); vp_i = vp_i + 1; }
@ hint postloop 0
    proof { assert(vp_all.take(vp_i) =~= vp_all); }
@ hint before close 0
    let ghost vp_m = vp_w@;
@ hint tail
    proof { assert(closed_ev(*self.frame_senders, vp_m, vp_w@)); }
@@ fn connection::FrameReceiver::print_if_err_and_skip :: props=C12,C18 sync
@ arg ->: Option<TFrameId>
@ spec
    ensures match frame_res { Ok(f) => r == Some(f), Err(_) => r is None },
@@ fn connection::FrameReceiver::print_if_err :: props=C12,C18 sync futarg noawait=some_res
@ arg some_res: ConnectionResult<()>
