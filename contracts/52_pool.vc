@# opening connections, the client side of the handshake, and the pools
@@ use bb8::Pool => crate::shim::Pool
@@ use std::net::SocketAddr => crate::shim::SocketAddr
@@ use core::time::Duration => crate::shim::Duration
@@ use tokio::net::TcpStream => crate::shim::TcpStream
@@ use tokio::task::JoinHandle => crate::shim::JoinHandle
@@ world connect/1 get/0
@@ module shim
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct SocketAddr { _x: u8 }
    impl KeyView for SocketAddr { type KV = SocketAddr; open spec fn kv(&self) -> SocketAddr { *self } }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { _x: u8 }
    #[verifier::external_body] pub struct TcpStream { _x: u8 }
    impl TcpStream {
        #[verifier::external_body] pub async fn connect(addr: SocketAddr, Tracked(w): Tracked<&mut World>) -> (r: Result<TcpStream, StdIoError>)
            ensures final(w)@ == old(w)@.push(Ev::Dial { daddr: addr, dok: r is Ok }) { unimplemented!() }
        pub uninterp spec fn conn(&self) -> int;
        #[verifier::external_body] pub fn into_split(self) -> (r: (OwnedReadHalf, OwnedWriteHalf)) ensures r.0.conn() == self.conn(), r.1.conn() == self.conn() { unimplemented!() }
    }
    // ---------- bb8
    pub struct PoolCfg { pub max_lifetime: Option<Duration>, pub max_size: u32, pub test: bool }
    #[verifier::external_body] #[verifier::accept_recursive_types(M)] pub struct Pool<M> { _m: M }
    #[verifier::external_body] #[verifier::accept_recursive_types(M)] pub struct Builder<M> { _m: M }
    #[verifier::external_body] pub struct BoxedSink { _x: u8 }
    impl<M> Builder<M> {
        pub uninterp spec fn cfg(&self) -> PoolCfg;
        #[verifier::external_body] pub fn max_lifetime(self, v: Option<Duration>) -> (r: Builder<M>) ensures r.cfg() == (PoolCfg { max_lifetime: v, ..self.cfg() }) { unimplemented!() }
        #[verifier::external_body] pub fn max_size(self, v: u32) -> (r: Builder<M>) ensures r.cfg() == (PoolCfg { max_size: v, ..self.cfg() }) { unimplemented!() }
        #[verifier::external_body] pub fn test_on_check_out(self, v: bool) -> (r: Builder<M>) ensures r.cfg() == (PoolCfg { test: v, ..self.cfg() }) { unimplemented!() }
        #[verifier::external_body] pub fn error_sink(self, v: BoxedSink) -> (r: Builder<M>) ensures r.cfg() == self.cfg() { unimplemented!() }
        #[verifier::external_body] pub async fn build(self, m: M) -> (r: Result<Pool<M>, crate::errors::ConnectionError>)
            ensures r is Ok ==> r->Ok_0.cfg() == self.cfg() && r->Ok_0.manager() == m { unimplemented!() }
    }
    impl<M> Pool<M> {
        pub uninterp spec fn cfg(&self) -> PoolCfg;
        pub uninterp spec fn manager(&self) -> M;
        /// the connections of the pool: bb8 opens them with `connect` of its manager, at most as many at once as its configuration says
        pub uninterp spec fn holds(&self, c: crate::connection::Connection) -> bool;
        #[verifier::external_body] pub fn builder() -> (r: Builder<M>) { unimplemented!() }
    }
    impl Pool<crate::connection::pool::ConnectionManager> {
        /// bb8 hands out what `connect` of its manager returned
        #[verifier::external_body] pub async fn get(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<Box<crate::connection::Connection>, RunError<crate::errors::ConnectionError>>)
            ensures final(w)@ == old(w)@, r is Ok ==> self.holds(*r->Ok_0) && crate::spec::pooled(self.manager(), *r->Ok_0) { unimplemented!() }
    }
    impl From<crate::errors::ConnectionError> for RunError<crate::errors::ConnectionError> { #[verifier::external_body] fn from(e: crate::errors::ConnectionError) -> Self { unimplemented!() } }
    impl vstd::std_specs::convert::FromSpecImpl<crate::errors::ConnectionError> for RunError<crate::errors::ConnectionError> { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: crate::errors::ConnectionError) -> Self; }
@@ item config::Config
@@ item connection::pool::ConnectionManager
@@ item connection::pool::ConnectionPools
@@ item connection::pool::ConnectionPoolsLogger #[derive(Default)]
@@ module connection::pool
    impl ConnectionPoolsLogger { #[verifier::external_body] pub fn boxed_clone(&self) -> crate::shim::BoxedSink { unimplemented!() } }
@@ module spec
    impl VpState for HashMap<SocketAddr, Arc<Pool<ConnectionManager>>> {
        open spec fn txn(lock: int, pre: Self, post: Self) -> Seq<Ev> { seq![Ev::Pools { lock, ppre: pre@, ppost: post@ }] }
        open spec fn keeps(first: Self, now: Self) -> bool { true }
    }
    /// everything that comes through a channel is written, once and in order, by the task of the writer
    pub open spec fn writes(log: Seq<Ev>, chan: int, conn: int) -> bool { wrote(arrives::<TFrameId>(chan), conn, seq![], log) }
    /// everything that is read goes to the exchanges, then the exchanges are closed, in the task of the reader
    pub open spec fn reads_all(log: Seq<Ev>, d: FramesDispatcher, items: Seq<Result<TFrameId, CodecError>>) -> bool {
        exists|mid: Seq<Ev>| #[trigger] received(d, items, seq![], mid) && closed_ev(d, mid, log)
    }
@@ fn connection::FrameSender::spawn :: props=C13,C14 world async tasks
@ spec
    ensures final(vp_w)@.len() == old(vp_w)@.len() + 1, ({ let t = final(vp_w)@.last(); t is Task && final(vp_w)@ == old(vp_w)@.push(t) && wrote(frame_receiver@, framed_write.conn(), seq![], t->log) }),
@@ fn connection::FrameReceiver::spawn :: props=C12,C18 world async tasks
@ spec
    ensures final(vp_w)@.len() == old(vp_w)@.len() + 1, ({ let t = final(vp_w)@.last(); t is Task && final(vp_w)@ == old(vp_w)@.push(t) && reads_all(t->log, *frame_senders, framed_read@) }),
@@ module spec
    pub open spec fn both_ways(c: Connection, conn: int, a: Seq<Ev>, b: Seq<Ev>) -> bool { reads_all(a, *c.pending_ids, crate::shim::incoming(conn)) && writes(b, c.sender.chan(), conn) }
    /// a connection over a socket: its channel is written to the socket, what comes from the socket goes to its exchanges
    pub open spec fn wired(c: Connection, conn: int, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        let n = l0.len() as int;
        &&& l =~= l0 + seq![l[n], l[n + 1]] && l[n] is Task && l[n + 1] is Task
        &&& both_ways(c, conn, l[n]->log, l[n + 1]->log) || both_ways(c, conn, l[n + 1]->log, l[n]->log)
        &&& c.next_message_id.first() == 0 && c.pending_ids.senders.first()@ == Map::<u32, Sender<TFrameId>>::empty() && c.pending_ids.closed.first() == false
    }
@@ fn connection::Connection::connect :: props=C13,C14,C18 world
@ spec
    ensures r is Ok, wired(r->Ok_0, stream.conn(), old(vp_w)@, final(vp_w)@),
@@ module spec
    use crate::frames::payloads::*;
    /// the init request of a client
    pub open spec fn hello(f: TFrame) -> bool { f.frame_type == Type::InitRequest && init_wire(InitV { version: 2, headers: Map::empty() }, f.payload@) }
    /// an init response of the version this client speaks
    pub open spec fn welcome(f: TFrame) -> bool { f.frame_type == Type::InitResponse && init_parse(f.payload@) is Some && (init_parse(f.payload@)->0).0.version == 2 }
    /// what the answer to the init request means
    pub open spec fn verdict(c: Connection, a: ConnectionResult<TFrameId>, r: ConnectionResult<Connection>) -> bool {
        match a {
            Err(_) => r is Err,
            Ok(x) => if welcome(x.frame) { r == Ok::<Connection, ConnectionError>(c) }
                else { r is Err && (x.frame.frame_type == Type::Error && error_parse(x.frame.payload@) is Some ==>
                    r->Err_0 is MessageErrorId && errorv(r->Err_0->MessageErrorId_0) == (error_parse(x.frame.payload@)->0).0 && r->Err_0->MessageErrorId_1 == x.id) },
        }
    }
    /// a connection whose init request was answered as it has to be
    pub open spec fn greeted(c: Connection, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        exists|f: TFrame, x: TFrameId| hello(f) && welcome(x.frame) && #[trigger] one_sent(c, f, l0, l, Ok(x))
    }
    pub open spec fn connected_to(m: ConnectionManager, c: Connection, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        exists|conn: int, mid: Seq<Ev>| #[trigger] wired(c, conn, l0.push(Ev::Dial { daddr: m.addr, dok: true }), mid) && #[trigger] greeted(c, mid, l)
    }
    /// a connection that a pool with this manager hands out
    pub open spec fn pooled(m: ConnectionManager, c: Connection) -> bool { exists|l0: Seq<Ev>, l: Seq<Ev>| #[trigger] connected_to(m, c, l0, l) }
@@ module spec
    pub proof fn lemma_hello(v: InitV, b: Seq<u8>)
        requires init_wire(v, b), v.headers.len() == 0
        ensures b.len() == 4
    {
        reveal(hdr_wire);
        let h = choose|h: Seq<u8>| #[trigger] hdr_wire(2, v.headers, h) && b == be16(v.version as nat) + h;
        let s = choose|s: Pairs| #[trigger] pairs_of(v.headers, s) && h == be(2, s.len()) + pairs_wire(2, s);
        assert(s.len() == 0);
        assert(pairs_wire(2, s) =~= seq![]);
    }
@@ fn connection::pool::init_handshake :: props=C14 world
@ spec
    ensures exists|f: TFrame| hello(f) && #[trigger] one_sent(*connection, f, old(vp_w)@, final(vp_w)@, r),
@ hint after default 0
    let ghost vp_v = initv(init);
    proof { assert(vp_v.headers =~= Map::<Seq<char>, Seq<char>>::empty()); }
@ hint before send_one 0
    let ghost vp_f = init_frame;
    proof { lemma_hello(vp_v, vp_f.payload@); assert(hello(vp_f)); }
@@ fn connection::pool::verify :: props=C14 world
@ spec
    ensures exists|f: TFrame, a: ConnectionResult<TFrameId>| hello(f) && #[trigger] one_sent(connection, f, old(vp_w)@, final(vp_w)@, a) && verdict(connection, a, r),
@@ fn connection::pool::ping :: props=C14,C18 world
@ spec
    ensures exists|f: TFrame, a: ConnectionResult<TFrameId>| f.frame_type == Type::PingRequest && #[trigger] one_sent(*connection, f, old(vp_w)@, final(vp_w)@, a) && r is Ok == (a is Ok && a->Ok_0.frame.frame_type == Type::PingResponse),
@ closure 0
    |mut frame_id: TFrameId| -> (r: ConnectionResult<()>) requires frame_id.msg_ok() ensures r is Ok == (frame_id.frame.frame_type == Type::PingResponse)
@@ fn connection::pool::<ConnectionManager as ManageConnection>::connect :: props=C14,C20 world inherent=vp_connect
@ arg ->: Result<Connection, ConnectionError>
@ spec
    ensures r is Ok ==> connected_to(*self, r->Ok_0, old(vp_w)@, final(vp_w)@),
@ hint after connect 0
    let ghost vp_conn = stream.conn(); let ghost vp_m0 = vp_w@;
@ hint after connect 1
    let ghost vp_m = vp_w@; let ghost vp_c = connection;
    proof { assert(wired(vp_c, vp_conn, vp_m0, vp_m)); }
@ hint tail
    proof { if vp_tail is Ok {
        let (f, a) = choose|f: TFrame, a: ConnectionResult<TFrameId>| hello(f) && #[trigger] one_sent(vp_c, f, vp_m, vp_w@, a) && verdict(vp_c, a, vp_tail);
        assert(one_sent(vp_c, f, vp_m, vp_w@, Ok(a->Ok_0))); assert(greeted(vp_c, vp_m, vp_w@)); assert(vp_tail->Ok_0 == vp_c);
        assert(vp_m0 == vp_l0.push(Ev::Dial { daddr: self.addr, dok: true })); assert(wired(vp_c, vp_conn, vp_l0.push(Ev::Dial { daddr: self.addr, dok: true }), vp_m)); assert(connected_to(*self, vp_c, vp_l0, vp_w@));
    } }
@ hint start
    let ghost vp_l0 = vp_w@;
@@ fn connection::pool::<ConnectionManager as ManageConnection>::is_valid :: props=C14,C18 world inherent=vp_is_valid
@ arg ->: Result<(), ConnectionError>
@ arg conn: &mut Connection
@ spec
    ensures *final(conn) == *old(conn), exists|f: TFrame, a: ConnectionResult<TFrameId>| f.frame_type == Type::PingRequest && #[trigger] one_sent(*old(conn), f, old(vp_w)@, final(vp_w)@, a) && r is Ok == (a is Ok && a->Ok_0.frame.frame_type == Type::PingResponse),
@@ fn connection::pool::<ConnectionManager as ManageConnection>::has_broken :: props=C18 world inherent=vp_has_broken
@ arg conn: &mut Connection
@ spec
    ensures *final(conn) == *old(conn), final(vp_w)@ =~= old(vp_w)@.push(Ev::Load { cell: old(conn).pending_ids.closed.id(), val: r }),
@@ module spec
    pub type PoolMap = Map<SocketAddr, Arc<Pool<ConnectionManager>>>;
    /// a pool made for an address as configured
    pub open spec fn pool_made(cfg: Config, addr: SocketAddr, p: Arc<Pool<ConnectionManager>>) -> bool {
        &&& p.cfg() == (PoolCfg { max_lifetime: cfg.lifetime, max_size: cfg.max_connections, test: cfg.test_connection })
        &&& p.manager() == (ConnectionManager { addr, frame_buffer_size: cfg.frame_buffer_size })
    }
    pub open spec fn pools_ev(s: ConnectionPools, p: PoolMap, q: PoolMap) -> Ev { Ev::Pools { lock: s.pools.id(), ppre: p, ppost: q } }
    /// the pool of an address: the one that is there, or a new one that is put there
    pub open spec fn got_pool(s: ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Arc<Pool<ConnectionManager>>>) -> bool {
        let n = l0.len() as int; let p = l[n]->ppre;
        match r {
            Some(x) => if p.contains_key(addr) { x == p[addr] && l =~= l0 + seq![pools_ev(s, p, p)] }
                else { pool_made(*s.config, addr, x) && l =~= l0 + seq![pools_ev(s, p, p.insert(addr, x))] },
            None => !p.contains_key(addr) && l =~= l0 + seq![pools_ev(s, p, p)],
        }
    }
@@ fn connection::pool::ConnectionPools::new :: props=C15,C20
@ spec
    ensures r.config == config, r.pools.first()@ == Map::<SocketAddr, Arc<Pool<ConnectionManager>>>::empty(),
@@ fn connection::pool::ConnectionPools::create_pool :: props=C15,C20 world
@ spec
    ensures got_pool(*self, addr, old(vp_w)@, final(vp_w)@, if r is Ok { Some(r->Ok_0) } else { None }),
@@ module spec
    /// the pool of an address looked up, and made when there was none
    pub open spec fn pool_for(s: ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Arc<Pool<ConnectionManager>>>) -> bool {
        let p = l[l0.len() as int]->ppre;
        if p.contains_key(addr) { r == Some(p[addr]) && l =~= l0 + seq![pools_ev(s, p, p)] }
        else { got_pool(s, addr, l0.push(pools_ev(s, p, p)), l, r) }
    }
@@ fn connection::pool::ConnectionPools::get :: props=C15,C20 world
@ spec
    ensures pool_for(*self, addr, old(vp_w)@, final(vp_w)@, if r is Ok { Some(r->Ok_0) } else { None }),
