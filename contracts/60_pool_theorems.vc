@@ module spec
    // ---------- C20
    /// a pool is limited as a configuration says
    pub open spec fn limited(cfg: Config, p: Arc<Pool<ConnectionManager>>) -> bool { p.cfg().max_size == cfg.max_connections && p.cfg().max_lifetime == cfg.lifetime && p.cfg().test == cfg.test_connection }
    /// C20: at every point of every history each address has at most one pool, made for it and limited as configured
    pub proof fn theorem_c20_limits(cfg: Config, ops: Seq<MapOp<SocketAddr, Arc<Pool<ConnectionManager>>>>, a: SocketAddr)
        requires map_hist(ops), map_run(ops).contains_key(a),
            forall|i: int| 0 <= i < ops.len() ==> match #[trigger] ops[i] { MapOp::Add { k, v } => pool_made(cfg, k, v), MapOp::Same => true, MapOp::Del { .. } => false },
        ensures limited(cfg, map_run(ops)[a]), map_run(ops)[a].manager().addr == a
    {
        let inv = |k: SocketAddr, v: Arc<Pool<ConnectionManager>>| pool_made(cfg, k, v);
        lemma_map_inv(ops, inv, a);
    }
    /// C20: the pool that is given for an address is the one registered for it, or a new one that is registered and limited as configured
    pub proof fn theorem_c20_pool(s: ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Arc<Pool<ConnectionManager>>>)
        requires pool_for(s, addr, l0, l, r)
        ensures ({ let e = l.last(); e is Pools && (r is Some ==> e->ppost.contains_key(addr) && e->ppost[addr] == r->0 && (e->ppre.contains_key(addr) || limited(*s.config, r->0))) })
    {}
    /// none of the events from n on opens a connection
    pub open spec fn undialed(l: Seq<Ev>, n: nat) -> bool { forall|i: int| n <= i < l.len() ==> !(#[trigger] l[i] is Dial) }
    pub proof fn lemma_undialed_sent(chan: int, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool, n: nat)
        requires sent_all(chan, fs, l0, l, ok), undialed(l0, n), n <= l0.len()
        ensures undialed(l, n), n <= l.len()
    {
        let k = if ok { fs.len() as int } else { l.len() - l0.len() - 1 };
        assert(fs.take(k).len() == k);
        assert forall|i: int| n <= i < l.len() implies !(#[trigger] l[i] is Dial) by {
            if i < l0.len() { assert(l[i] == l0[i]); } else if i < l0.len() + k { assert(l[i] == sents(chan, if ok { fs } else { fs.take(k) })[i - l0.len()]); }
        }
    }
    pub proof fn lemma_undialed_pool(s: &ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Arc<Pool<ConnectionManager>>>)
        requires pool_for(*s, addr, l0, l, r)
        ensures undialed(l, l0.len()), l.len() >= l0.len()
    {}
    pub proof fn lemma_undialed_connected(s: &ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>, rx: FrameInput, out: FrameOutput)
        requires connected(*s, addr, l0, l, rx, out)
        ensures undialed(l, l0.len()), l.len() >= l0.len()
    {
        let (mid, pool, c) = choose|mid: Seq<Ev>, pool: Arc<Pool<ConnectionManager>>, c: Connection| #[trigger] pool_for(*s, addr, l0, mid, Some(pool)) && pool.holds(c) && pooled(pool.manager(), c) && #[trigger] linked(c, mid, l, rx, out);
        lemma_undialed_pool(s, addr, l0, mid, Some(pool));
        assert forall|i: int| l0.len() <= i < l.len() implies !(#[trigger] l[i] is Dial) by { if i < mid.len() { assert(l[i] == mid[i]); } }
    }
    pub proof fn lemma_undialed_unconnected(s: &ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>)
        requires unconnected(*s, addr, l0, l)
        ensures undialed(l, l0.len())
    {
        if exists|mid: Seq<Ev>, pool: Arc<Pool<ConnectionManager>>, c: Connection| #[trigger] pool_for(*s, addr, l0, mid, Some(pool)) && pool.holds(c) && pooled(pool.manager(), c) && #[trigger] not_opened(c, mid, l) {
            let (mid, pool, c) = choose|mid: Seq<Ev>, pool: Arc<Pool<ConnectionManager>>, c: Connection| #[trigger] pool_for(*s, addr, l0, mid, Some(pool)) && pool.holds(c) && pooled(pool.manager(), c) && #[trigger] not_opened(c, mid, l);
            lemma_undialed_pool(s, addr, l0, mid, Some(pool));
            assert forall|i: int| l0.len() <= i < l.len() implies !(#[trigger] l[i] is Dial) by { if i < mid.len() { assert(l[i] == mid[i]); } }
        }
    }
    /// C20: a call opens no connection: it goes over one that the pool of its address holds
    pub proof fn theorem_c20_call<REQ: Message, RES: Message, A: ToSocketAddrs>(s: SubChannel, q: REQ, host: A, l0: Seq<Ev>, l: Seq<Ev>, r: HandlerResult<RES>)
        requires called(s, q, host, l0, l, r)
        ensures undialed(l, l0.len()),
            r is Ok || r->Err_0 is MessageError ==> exists|addr: SocketAddr, pool: Arc<Pool<ConnectionManager>>, c: Connection, m0: Seq<Ev>, m1: Seq<Ev>, rx: FrameInput, out: FrameOutput|
                at(host, addr) && #[trigger] pool_for(*s.connection_pools, addr, l0, m0, Some(pool)) && pool.holds(c) && #[trigger] linked(c, m0, m1, rx, out)
    {
        if r is Err && r->Err_0 is InternalError && (l == l0 || exists|addr: SocketAddr| #[trigger] unconnected(*s.connection_pools, addr, l0, l)) {
            if l != l0 { let addr = choose|addr: SocketAddr| #[trigger] unconnected(*s.connection_pools, addr, l0, l); lemma_undialed_unconnected(&*s.connection_pools, addr, l0, l); }
        } else {
            let (addr, rx, out, m1, m2, x) = choose|addr: SocketAddr, rx: FrameInput, out: FrameOutput, m1: Seq<Ev>, m2: Seq<Ev>, x: TResult<(ResponseCode, RES)>|
                at(host, addr) && #[trigger] connected(*s.connection_pools, addr, l0, m1, rx, out) && #[trigger] asked(s.service_name@, q, rx, out, m1, m2, x) && released(out, m2, l) && told(x, r);
            lemma_undialed_connected(&*s.connection_pools, addr, l0, m1, rx, out);
            let n = l0.len();
            if m2 != m1 {
                let fs = choose|fs: Seq<TFrame>| #[trigger] request_frames(fs, q.to_args().0, s.service_name@, q.to_args().1)
                    && (x is Err && sent_all(out.sender.chan(), tagged(out.message_id, fs), m1, m2, false) || exchanged(fs, rx, out, m1, m2, x));
                if exchanged(fs, rx, out, m1, m2, x) {
                    let mid = choose|mid: Seq<Ev>| #[trigger] sent_all(out.sender.chan(), tagged(out.message_id, fs), m1, mid, true) && released(out, mid, m2) && answer_read(rx@, x);
                    lemma_undialed_sent(out.sender.chan(), tagged(out.message_id, fs), m1, mid, true, n);
                    assert forall|i: int| n <= i < m2.len() implies !(#[trigger] m2[i] is Dial) by { if i < mid.len() { assert(m2[i] == mid[i]); } }
                } else { lemma_undialed_sent(out.sender.chan(), tagged(out.message_id, fs), m1, m2, false, n); }
            }
            assert forall|i: int| n <= i < l.len() implies !(#[trigger] l[i] is Dial) by { if i < m2.len() { assert(l[i] == m2[i]); } }
            let (mid, pool, c) = choose|mid: Seq<Ev>, pool: Arc<Pool<ConnectionManager>>, c: Connection| #[trigger] pool_for(*s.connection_pools, addr, l0, mid, Some(pool)) && pool.holds(c) && pooled(pool.manager(), c) && #[trigger] linked(c, mid, m1, rx, out);
        }
    }
    /// C20: opening a connection for a pool dials once, the address the pool is for
    pub proof fn theorem_c20_dial(m: ConnectionManager, c: Connection, l0: Seq<Ev>, l: Seq<Ev>)
        requires connected_to(m, c, l0, l)
        ensures l.len() > l0.len(), l[l0.len() as int] == (Ev::Dial { daddr: m.addr, dok: true }), undialed(l, l0.len() + 1)
    {
        let (conn, mid) = choose|conn: int, mid: Seq<Ev>| #[trigger] wired(c, conn, l0.push(Ev::Dial { daddr: m.addr, dok: true }), mid) && #[trigger] greeted(c, mid, l);
        let (f, x) = choose|f: TFrame, x: TFrameId| hello(f) && welcome(x.frame) && #[trigger] one_sent(c, f, mid, l, Ok(x));
        let n = l0.len();
        assert(mid[n as int] == l0.push(Ev::Dial { daddr: m.addr, dok: true })[n as int]);
        assert forall|i: int| n < i < l.len() implies !(#[trigger] l[i] is Dial) by { if i < mid.len() { assert(l[i] == mid[i]); assert(i == n + 1 || i == n + 2 || i == n + 3); } }
        assert(l[n as int] == mid[n as int]);
    }
