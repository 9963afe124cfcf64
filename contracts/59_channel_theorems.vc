@@ module spec
    // ---------- histories of registries: what their transactions do, one after another
    pub enum MapOp<K, V> { Same, Add { k: K, v: V }, Del { k: K } }
    pub open spec fn map_op<K, V>(p: Map<K, V>, o: MapOp<K, V>) -> Map<K, V> {
        match o { MapOp::Same => p, MapOp::Add { k, v } => p.insert(k, v), MapOp::Del { k } => p.remove(k) }
    }
    pub open spec fn map_run<K, V>(ops: Seq<MapOp<K, V>>) -> Map<K, V>
        decreases ops.len()
    { if ops.len() == 0 { Map::empty() } else { map_op(map_run(ops.drop_last()), ops.last()) } }
    /// a history in which a name is only added when it is not in use
    pub open spec fn map_hist<K, V>(ops: Seq<MapOp<K, V>>) -> bool
        decreases ops.len()
    { ops.len() > 0 ==> map_hist(ops.drop_last()) && match ops.last() { MapOp::Add { k, .. } => !map_run(ops.drop_last()).contains_key(k), _ => true } }
    /// what is registered under a name: what was added last, unless it was removed since
    pub open spec fn map_holder<K, V>(ops: Seq<MapOp<K, V>>, k: K) -> Option<V>
        decreases ops.len()
    {
        if ops.len() == 0 { None } else { match ops.last() {
            MapOp::Add { k: i, v } if i == k => Some(v),
            MapOp::Del { k: i } if i == k => None,
            _ => map_holder(ops.drop_last(), k),
        } }
    }
    pub proof fn lemma_map_history<K, V>(ops: Seq<MapOp<K, V>>, k: K)
        ensures map_run(ops).contains_key(k) == (map_holder(ops, k) is Some), map_run(ops).contains_key(k) ==> map_run(ops)[k] == map_holder(ops, k)->0
        decreases ops.len()
    { if ops.len() > 0 { lemma_map_history(ops.drop_last(), k); } }
    /// nothing takes the place of what is registered under a name, as long as it is not removed
    pub proof fn lemma_map_stable<K, V>(ops: Seq<MapOp<K, V>>, n: int, k: K)
        requires map_hist(ops), 0 <= n <= ops.len(), map_run(ops.take(n)).contains_key(k), forall|i: int| n <= i < ops.len() ==> #[trigger] ops[i] != (MapOp::<K, V>::Del { k })
        ensures map_run(ops).contains_key(k), map_run(ops)[k] == map_run(ops.take(n))[k]
        decreases ops.len()
    {
        if n == ops.len() { assert(ops.take(n) =~= ops); } else {
            let d = ops.drop_last();
            assert(d.take(n) =~= ops.take(n));
            assert forall|i: int| n <= i < d.len() implies #[trigger] d[i] != (MapOp::<K, V>::Del { k }) by { assert(d[i] == ops[i]); }
            lemma_map_stable(d, n, k);
            assert(ops.last() == ops[ops.len() - 1]);
        }
    }
    /// what holds of everything that is added holds of everything that is registered
    pub proof fn lemma_map_inv<K, V>(ops: Seq<MapOp<K, V>>, inv: spec_fn(K, V) -> bool, k: K)
        requires forall|i: int| 0 <= i < ops.len() ==> match #[trigger] ops[i] { MapOp::Add { k, v } => inv(k, v), _ => true }, map_run(ops).contains_key(k)
        ensures inv(k, map_run(ops)[k])
        decreases ops.len()
    {
        assert(ops.last() == ops[ops.len() - 1]);
        let d = ops.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (match #[trigger] d[i] { MapOp::Add { k, v } => inv(k, v), _ => true }) by { assert(d[i] == ops[i]); }
        match ops.last() { MapOp::Add { k: i, v } if i == k => {}, _ => { assert(map_run(d).contains_key(k)); lemma_map_inv(d, inv, k); } }
    }
    // ---------- C15
    /// C15: registering is refused when the name is in use and then changes nothing; otherwise it adds this handler and nothing else
    pub proof fn theorem_c15_register(s: SubChannel, name: Seq<char>, h: HandlerRef, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires handler_added(s, name, h, l0, l, ok)
        ensures ({ let p = l[l0.len() as int]->kpre; let q = l[l0.len() as int]->kpost;
            &&& ok == !p.contains_key(name)
            &&& l.len() == l0.len() + 1 && q == map_op(p, if ok { MapOp::Add { k: name, v: h } } else { MapOp::Same })
            &&& forall|o: Seq<char>| o != name ==> q.contains_key(o) == p.contains_key(o) && (p.contains_key(o) ==> #[trigger] q[o] == p[o])
            &&& p.contains_key(name) ==> q[name] == p[name]
        })
    {}
    /// C15: unregistering removes exactly the named handler and fails when there is none
    pub proof fn theorem_c15_unregister(s: SubChannel, name: Seq<char>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires handler_removed(s, name, l0, l, ok)
        ensures ({ let p = l[l0.len() as int]->kpre; let q = l[l0.len() as int]->kpost;
            &&& ok == p.contains_key(name) && !q.contains_key(name)
            &&& l.len() == l0.len() + 1 && q =~= map_op(p, if ok { MapOp::Del { k: name } } else { MapOp::Same })
            &&& forall|o: Seq<char>| o != name ==> q.contains_key(o) == p.contains_key(o) && (p.contains_key(o) ==> #[trigger] q[o] == p[o])
        })
    {}
    /// C15: a request goes to the handler that is registered under exactly its endpoint name, and to no other; it fails when there is none
    pub proof fn theorem_c15_routing(s: SubChannel, scheme: ArgSchemeValue, args: Args, l0: Seq<Ev>, l: Seq<Ev>, r: MessageArgsResponse)
        requires routed(s, scheme, args, l0, l, r)
        ensures ({ let n = l0.len() as int; let p = l[n]->kpre; let e = endpoint_of(args);
            &&& forall|i: int| n <= i < l.len() && #[trigger] l[i] is Used ==> e is Some && p.contains_key(e->0) && l[i]->hlock == p[e->0].id() && i == n + 1
            &&& forall|i: int| n <= i < l.len() && #[trigger] l[i] is Handlers ==> l[i]->kpost == l[i]->kpre
            &&& e is Some && p.contains_key(e->0) ==> l.len() == n + 2 && l[n + 1] is Used && l[n + 1]->hpre.mrel(scheme, args, r, l[n + 1]->hpost.mstate())
            &&& e is None || !p.contains_key(e->0) ==> r is Err
        })
    {}
    /// C15: the subchannel that handles a request is the one registered under exactly its service name
    pub proof fn theorem_c15_service(d: FramesDispatcher, subs: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Seq<TFrameId>>)
        requires outcome(d, subs, id, fs, l0, l, r), req_read(fs) is Some
        ensures ({ let n = l0.len() as int; let m = l[n + 1]->spre; let f = (req_read(fs)->0).0;
            &&& l[n + 1] == subs_ev(subs, m, m)
            &&& if m.contains_key(f.service) { exists|x: MessageArgsResponse| #[trigger] routed(*m[f.service], (req_read(fs)->0).1, (req_read(fs)->0).2, l.take(n + 2), l, x) && reply(id, f.service, x, r) }
                else { r is None && l.len() == n + 2 }
        })
    {
        let n = l0.len() as int; let p = found(l, n); let m = l[n + 1]->spre; let l2 = l0.push(reg_ev(d, p, p.remove(id))).push(subs_ev(subs, m, m));
        let (f, s, a) = req_read(fs)->0;
        if m.contains_key(f.service) {
            let x = choose|x: MessageArgsResponse| #[trigger] routed(*m[f.service], s, a, l2, l, x) && reply(id, f.service, x, r);
            assert(l.take(n + 2) =~= l2);
            assert(routed(*m[f.service], s, a, l.take(n + 2), l, x));
        }
    }
    /// C15: at every point of every history the handler of a name is the one last registered and not unregistered since
    pub proof fn theorem_c15_handlers(ops: Seq<MapOp<Seq<char>, HandlerRef>>, name: Seq<char>)
        ensures map_run(ops).contains_key(name) == (map_holder(ops, name) is Some), map_run(ops).contains_key(name) ==> map_run(ops)[name] == map_holder(ops, name)->0
    { lemma_map_history(ops, name); }
    /// C15: asking for a subchannel gives the one of the name, and puts a new one of that name there only when there is none
    pub proof fn theorem_c15_subchannel(s: TChannel, name: Seq<char>, l0: Seq<Ev>, l: Seq<Ev>, r: Arc<SubChannel>)
        requires subchannel_got(s, name, l0, l, r)
        ensures ({ let p = l[l0.len() as int]->spre; let q = l[l0.len() as int]->spost;
            &&& q == map_op(p, if p.contains_key(name) { MapOp::Same } else { MapOp::Add { k: name, v: r } })
            &&& q.contains_key(name) && q[name] == r
            &&& !p.contains_key(name) ==> r.service_name@ == name
        })
    {}
    /// C15: once there is a subchannel of a name it is always the one that is given; distinct names have distinct subchannels
    /// (nothing removes one: the two functions above and the look-up of the server are all that touches them)
    pub proof fn theorem_c15_subchannels(ops: Seq<MapOp<Seq<char>, Arc<SubChannel>>>, n: int, a: Seq<char>, b: Seq<char>)
        requires map_hist(ops), 0 <= n <= ops.len(),
            forall|i: int| 0 <= i < ops.len() ==> match #[trigger] ops[i] { MapOp::Add { k, v } => v.service_name@ == k, MapOp::Same => true, MapOp::Del { .. } => false },
        ensures map_run(ops.take(n)).contains_key(a) ==> map_run(ops).contains_key(a) && map_run(ops)[a] == map_run(ops.take(n))[a],
            a != b && map_run(ops).contains_key(a) && map_run(ops).contains_key(b) ==> map_run(ops)[a] != map_run(ops)[b],
    {
        if map_run(ops.take(n)).contains_key(a) {
            assert forall|i: int| n <= i < ops.len() implies #[trigger] ops[i] != (MapOp::<Seq<char>, Arc<SubChannel>>::Del { k: a }) by {}
            lemma_map_stable(ops, n, a);
        }
        let inv = |k: Seq<char>, v: Arc<SubChannel>| v.service_name@ == k;
        if map_run(ops).contains_key(a) && map_run(ops).contains_key(b) { lemma_map_inv(ops, inv, a); lemma_map_inv(ops, inv, b); }
    }
    /// C15: asking for a pool gives the one of the address, and makes one for that address, as configured, only when there is none
    pub proof fn theorem_c15_pool(s: ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Arc<Pool<ConnectionManager>>>)
        requires pool_for(s, addr, l0, l, r)
        ensures ({ let n = l.len() - 1; let p = l[n]->ppre; let q = l[n]->ppost;
            &&& n >= l0.len() && l[n] == pools_ev(s, p, q)
            &&& q == map_op(p, if r is Some && !p.contains_key(addr) { MapOp::Add { k: addr, v: r->0 } } else { MapOp::Same })
            &&& p.contains_key(addr) ==> r == Some(p[addr])
            &&& r is Some ==> q.contains_key(addr) && q[addr] == r->0 && (!p.contains_key(addr) ==> pool_made(*s.config, addr, r->0))
        })
    {}
    pub proof fn theorem_c15_pools(cfg: Config, ops: Seq<MapOp<SocketAddr, Arc<Pool<ConnectionManager>>>>, n: int, a: SocketAddr, b: SocketAddr)
        requires map_hist(ops), 0 <= n <= ops.len(),
            forall|i: int| 0 <= i < ops.len() ==> match #[trigger] ops[i] { MapOp::Add { k, v } => pool_made(cfg, k, v), MapOp::Same => true, MapOp::Del { .. } => false },
        ensures map_run(ops.take(n)).contains_key(a) ==> map_run(ops).contains_key(a) && map_run(ops)[a] == map_run(ops.take(n))[a],
            map_run(ops).contains_key(a) ==> map_run(ops)[a].manager().addr == a,
            a != b && map_run(ops).contains_key(a) && map_run(ops).contains_key(b) ==> map_run(ops)[a] != map_run(ops)[b],
    {
        if map_run(ops.take(n)).contains_key(a) {
            assert forall|i: int| n <= i < ops.len() implies #[trigger] ops[i] != (MapOp::<SocketAddr, Arc<Pool<ConnectionManager>>>::Del { k: a }) by {}
            lemma_map_stable(ops, n, a);
        }
        let inv = |k: SocketAddr, v: Arc<Pool<ConnectionManager>>| pool_made(cfg, k, v);
        if map_run(ops).contains_key(a) { lemma_map_inv(ops, inv, a); }
        if map_run(ops).contains_key(b) { lemma_map_inv(ops, inv, b); }
    }
    /// C15: a call goes over a connection that was made to the address it is for
    pub proof fn theorem_c15_address(s: ConnectionPools, addr: SocketAddr, pool: Arc<Pool<ConnectionManager>>, c: Connection)
        requires pool_made(*s.config, addr, pool), pooled(pool.manager(), c)
        ensures exists|l0: Seq<Ev>, l: Seq<Ev>| #[trigger] connected_to(ConnectionManager { addr, frame_buffer_size: s.config.frame_buffer_size }, c, l0, l)
    {}
    // ---------- C16
    /// one transaction on the server of a channel: what was remembered before and after, the task started and the task stopped
    pub struct SrvStep { pub pre: Option<int>, pub post: Option<int>, pub start: Option<int>, pub abort: Option<int> }
    pub open spec fn srv_step(l0: Seq<Ev>, l: Seq<Ev>) -> SrvStep {
        let n = l0.len() as int; let e = l[n + 1];
        SrvStep { pre: l[n]->opre, post: l[n]->opost, start: if l.len() > n + 1 && e is Start { Some(e->Start_task) } else { None }, abort: if l.len() > n + 1 && e is Abort { Some(e->Abort_task) } else { None } }
    }
    pub open spec fn srv_start(x: SrvStep) -> bool { if x.pre is Some { x.post == x.pre && x.start is None && x.abort is None } else { x.post is Some && x.start == x.post && x.abort is None } }
    pub open spec fn srv_stop(x: SrvStep) -> bool { x.post is None && x.start is None && x.abort == x.pre }
    pub open spec fn srv_hist(xs: Seq<SrvStep>) -> bool {
        forall|i: int| 0 <= i < xs.len() ==> (srv_start(#[trigger] xs[i]) || srv_stop(xs[i])) && xs[i].pre == (if i == 0 { None } else { xs[i - 1].post })
    }
    /// the tasks that were started and not stopped
    pub open spec fn running(xs: Seq<SrvStep>) -> Set<int>
        decreases xs.len()
    {
        if xs.len() == 0 { Set::empty() } else {
            let s = running(xs.drop_last()); let x = xs.last();
            let t = match x.start { Some(k) => s.insert(k), None => s };
            match x.abort { Some(k) => t.remove(k), None => t }
        }
    }
    /// C16: every transaction on the server of a channel is one of these two; a start fails exactly when there is a server
    pub proof fn theorem_c16_transactions(s: TChannel, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        ensures started(s, l0, l, ok) ==> srv_start(srv_step(l0, l)) && ok == (srv_step(l0, l).pre is None) && (ok ==> l.last() == (Ev::Start { task: srv_step(l0, l).post->0, cfg: s.config, subs: s.subchannels.id() })),
            stopped(s, l0, l) ==> srv_stop(srv_step(l0, l)),
    {}
    /// C16: in every history at most one server is running, the one the channel remembers
    pub proof fn theorem_c16_one(xs: Seq<SrvStep>)
        requires srv_hist(xs)
        ensures running(xs) =~= (if xs.len() == 0 { Set::<int>::empty() } else { match xs.last().post { Some(k) => Set::<int>::empty().insert(k), None => Set::<int>::empty() } })
        decreases xs.len()
    {
        if xs.len() > 0 {
            let d = xs.drop_last(); let x = xs[xs.len() - 1];
            assert forall|i: int| 0 <= i < d.len() implies (srv_start(#[trigger] d[i]) || srv_stop(d[i])) && d[i].pre == (if i == 0 { None } else { d[i - 1].post }) by { assert(d[i] == xs[i]); if i > 0 { assert(d[i - 1] == xs[i - 1]); } }
            theorem_c16_one(d);
            if d.len() > 0 { assert(d.last() == xs[xs.len() - 2]); }
        }
    }
    /// C16: no server is running after a stop, and one can be started then
    pub proof fn theorem_c16_restart(s: TChannel, xs: Seq<SrvStep>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires srv_hist(xs), xs.len() > 0, srv_stop(xs.last()), started(s, l0, l, ok), l[l0.len() as int]->opre == xs.last().post
        ensures running(xs) =~= Set::<int>::empty(), ok
    { theorem_c16_one(xs); }
