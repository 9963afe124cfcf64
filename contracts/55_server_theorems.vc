@@ module spec
    /// C14: nothing is done for a socket that does not start with an init request of version 2: nothing is written, no handler is used
    pub proof fn theorem_c14_server_refuses(d: FramesDispatcher, subs: int, conn: int, log: Seq<Ev>, ok: bool)
        requires tended(d, subs, conn, log, ok), !hailed(crate::shim::incoming(conn))
        ensures log.len() == 0, !ok
    {}
    /// C14: what is written first is the answer to the init request: an init response of version 2 under its id
    pub proof fn theorem_c14_server_answers(d: FramesDispatcher, subs: int, conn: int, log: Seq<Ev>, ok: bool)
        requires tended(d, subs, conn, log, ok), hailed(crate::shim::incoming(conn))
        ensures log.len() > 0, log[0] is Write, log[0]->conn == conn, log[0]->Write_frame.id == crate::shim::incoming(conn)[0]->Ok_0.id, welcome(log[0]->Write_frame.frame),
            // and nothing else happens when it cannot be written
            !log[0]->ok ==> log.len() == 1 && !ok,
    {
        let f = log[0]->Write_frame;
        let v = choose|v: InitV| v.version == 2 && hdr_fits(2, v.headers) && #[trigger] init_wire(v, f.frame.payload@);
        theorem_c05_init(v, f.frame.payload@, seq![]);
        assert(f.frame.payload@ + seq![] =~= f.frame.payload@);
    }
    /// C14: only an init response of version 2 makes a connection of a client; an error frame is reported with its content and id
    pub proof fn theorem_c14_client(c: Connection, a: ConnectionResult<TFrameId>, r: ConnectionResult<Connection>)
        requires verdict(c, a, r)
        ensures r is Ok ==> a is Ok && welcome(a->Ok_0.frame) && r->Ok_0 == c,
            a is Ok && a->Ok_0.frame.frame_type == Type::Error && error_parse(a->Ok_0.frame.payload@) is Some ==>
                r is Err && r->Err_0 is MessageErrorId && errorv(r->Err_0->MessageErrorId_0) == (error_parse(a->Ok_0.frame.payload@)->0).0 && r->Err_0->MessageErrorId_1 == a->Ok_0.id,
    {}
    /// C14: a connection of a pool was made over a socket to the address of the pool, and its init request was answered as it has to be
    pub proof fn theorem_c14_pooled(m: ConnectionManager, c: Connection)
        requires pooled(m, c)
        ensures exists|conn: int, l0: Seq<Ev>, mid: Seq<Ev>, l: Seq<Ev>| #[trigger] wired(c, conn, l0.push(Ev::Dial { daddr: m.addr, dok: true }), mid) && #[trigger] greeted(c, mid, l)
    {
        let (l0, l) = choose|l0: Seq<Ev>, l: Seq<Ev>| #[trigger] connected_to(m, c, l0, l);
        let (conn, mid) = choose|conn: int, mid: Seq<Ev>| #[trigger] wired(c, conn, l0.push(Ev::Dial { daddr: m.addr, dok: true }), mid) && #[trigger] greeted(c, mid, l);
        assert(wired(c, conn, l0.push(Ev::Dial { daddr: m.addr, dok: true }), mid));
    }
    /// C14: the init request of a client is one that a server accepts
    pub proof fn theorem_c14_compatible(f: TFrame)
        requires hello(f)
        ensures hail(f)
    {
        let v = InitV { version: 2, headers: Map::<Seq<char>, Seq<char>>::empty() };
        assert(hdr_fits(2, v.headers)) by { assert(v.headers.len() == 0); }
        theorem_c05_init(v, f.payload@, seq![]);
        assert(f.payload@ + seq![] =~= f.payload@);
    }
    /// the part of the log that was added
    pub open spec fn news(l0: Seq<Ev>, l: Seq<Ev>) -> Seq<Ev> { l.skip(l0.len() as int) }
    /// C17: a request that cannot be read, is for an unknown service or endpoint, or whose handler fails has no response
    pub proof fn theorem_c17_failures(d: FramesDispatcher, subs: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Seq<TFrameId>>)
        requires outcome(d, subs, id, fs, l0, l, r)
        ensures ({ let n = l0.len() as int; let m = l[n + 1]->spre; let (f, s, a) = req_read(fs)->0; let h = l[n + 2]->kpre;
            &&& req_read(fs) is None ==> r is None
            &&& req_read(fs) is Some && !m.contains_key(f.service) ==> r is None
            &&& req_read(fs) is Some && endpoint_of(a) is None ==> r is None
            &&& req_read(fs) is Some && m.contains_key(f.service) && endpoint_of(a) is Some && !h.contains_key(endpoint_of(a)->0) ==> r is None
        })
    {
        if req_read(fs) is Some {
            let n = l0.len() as int; let p = found(l, n); let l1 = l0.push(reg_ev(d, p, p.remove(id))); let m = l[n + 1]->spre; let l2 = l1.push(subs_ev(subs, m, m));
            let (f, s, a) = req_read(fs)->0;
            if m.contains_key(f.service) {
                let x = choose|x: MessageArgsResponse| #[trigger] routed(*m[f.service], s, a, l2, l, x) && reply(id, f.service, x, r);
                assert(l2.len() == n + 2);
            }
        }
    }
    /// C13, C17: a request is answered under its own id, with its response or with one error frame, unless the connection is gone;
    /// its id is released, the other exchanges are as they were, and nothing else is sent
    pub open spec fn answers_alone(d: FramesDispatcher, chan: int, id: u32, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        let n = l0.len() as int; let p = found(l, n);
        &&& l.len() > n + 1 && l.take(n) =~= l0
        &&& l[n] == reg_ev(d, p, p.remove(id))
        &&& forall|i: int| n < i < l.len() ==> !(#[trigger] l[i] is Reg) && !(l[i] is Store) && !(l[i] is Task)
        &&& forall|i: int| n < i < l.len() && #[trigger] l[i] is Sent ==> l[i]->Sent_chan == chan && l[i]->Sent_frame.id == id
        &&& l.last() is Sent || l.last() == Ev::Gone { chan }
    }
    pub proof fn theorem_c17_alone(d: FramesDispatcher, subs: int, chan: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires answered(d, subs, chan, id, fs, l0, l, ok)
        ensures answers_alone(d, chan, id, l0, l), ok ==> l.last() is Sent, !ok ==> l.last() == (Ev::Gone { chan })
    {
        let (mid, r, out) = choose|mid: Seq<Ev>, r: Option<Seq<TFrameId>>, out: Seq<TFrameId>| #[trigger] outcome(d, subs, id, fs, l0, mid, r)
            && (match r { Some(x) => out == x, None => out.len() == 1 && errs(out[0], id) }) && #[trigger] sent_all(chan, out, mid, l, ok);
        lemma_outcome_events(d, subs, id, fs, l0, mid, r);
        assert(out.len() >= 1 && all_ids(out, id));
        let n = l0.len() as int; let m = mid.len() as int;
        let sent = if ok { sents(chan, out) } else { sents(chan, out.take(l.len() - m - 1)) };
        assert(l.take(m) =~= mid); 
        assert forall|i: int| 0 <= i < m implies l[i] == mid[i] by { assert(l.take(m)[i] == mid[i]); }
        assert forall|i: int| m <= i < l.len() implies #[trigger] l[i] == (if i - m < sent.len() { sent[i - m] } else { Ev::Gone { chan } }) by {}
        assert(l.take(n) =~= l0) by { assert forall|i: int| 0 <= i < n implies l[i] == l0[i] by { assert(mid.take(n)[i] == l0[i]); } }
    }
    pub proof fn lemma_outcome_events(d: FramesDispatcher, subs: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Seq<TFrameId>>)
        requires outcome(d, subs, id, fs, l0, l, r)
        ensures ({ let n = l0.len() as int; let p = found(l, n);
            &&& l.len() > n && l.take(n) =~= l0 && l[n] == reg_ev(d, p, p.remove(id))
            &&& forall|i: int| n < i < l.len() ==> #[trigger] l[i] is Subs || l[i] is Handlers || l[i] is Used
            &&& r is Some ==> r->0.len() >= 1 && all_ids(r->0, id) })
    {
        if req_read(fs) is Some && r is Some {
            let n = l0.len() as int; let p = found(l, n); let l1 = l0.push(reg_ev(d, p, p.remove(id))); let m = l[n + 1]->spre; let l2 = l1.push(subs_ev(subs, m, m));
            let (f, s, a) = req_read(fs)->0;
            let x = choose|x: MessageArgsResponse| #[trigger] routed(*m[f.service], s, a, l2, l, x) && reply(id, f.service, x, r);
            assert(bare(r->0).len() == r->0.len());
        }
    }
    /// C17: a failed request is answered with an error frame under its id, whatever made it fail
    pub proof fn theorem_c17_error_frame(d: FramesDispatcher, subs: int, chan: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, mid: Seq<Ev>, out: Seq<TFrameId>, l: Seq<Ev>)
        requires outcome(d, subs, id, fs, l0, mid, None), out.len() == 1, errs(out[0], id), sent_all(chan, out, mid, l, true)
        ensures l =~= mid.push(Ev::Sent { chan, frame: out[0] }), out[0].id == id, out[0].frame.frame_type == Type::Error
    { assert(sents(chan, out) =~= seq![Ev::Sent { chan, frame: out[0] }]); }
    /// C17: the connection goes on after every request, failed or not: it ends when what is read is no frame or when nothing can be sent any more
    /// (or when some other reader put the id there between two transactions of this one, and there is no other reader)
    pub proof fn theorem_c17_goes_on(d: FramesDispatcher, subs: int, chan: int, item: Result<TFrameId, CodecError>, l0: Seq<Ev>, l: Seq<Ev>)
        requires step(d, subs, chan, item, l0, l, false), item is Ok
        ensures l.last() is Gone || !found(l, l0.len() as int).contains_key(item->Ok_0.id) && found(l, l0.len() as int + 1).contains_key(item->Ok_0.id)
    {
        let f = item->Ok_0; let p = found(l, l0.len() as int); let l1 = l0.push(reg_ev(d, p, p));
        assert(!p.contains_key(f.id));
        if began(d, f, l1, l, None) {} else {
            let (c, mid) = choose|c: int, mid: Seq<Ev>| #[trigger] began(d, f, l1, mid, Some(c)) && #[trigger] answered(d, subs, chan, f.id, arrives::<TFrameId>(c), mid, l, false);
            theorem_c17_alone(d, subs, chan, f.id, arrives::<TFrameId>(c), mid, l, false);
        }
    }
    // ---------- C21
    pub proof fn lemma_pigeons(handled: Set<int>, permit: spec_fn(int) -> int, n: nat)
        requires handled.finite(),
            forall|r: int| #[trigger] handled.contains(r) ==> 0 <= permit(r) < n,
            forall|r: int, q: int| handled.contains(r) && handled.contains(q) && #[trigger] permit(r) == #[trigger] permit(q) ==> r == q,
        ensures handled.len() <= n
        decreases n
    {
        if handled.len() > 0 {
            let r = handled.choose(); assert(handled.contains(r));
            if exists|q: int| #[trigger] handled.contains(q) && permit(q) == n - 1 {
                let q = choose|q: int| #[trigger] handled.contains(q) && permit(q) == n - 1;
                lemma_pigeons(handled.remove(q), permit, (n - 1) as nat);
            } else { lemma_pigeons(handled, permit, (n - 1) as nat); }
        }
    }
    /// C21: requests that are handled at once hold a permit of their connection each, no two the same one (the contract of a
    /// semaphore): there are no more of them than the connection has permits, which is the configured number of tasks
    pub proof fn theorem_c21_limit(tasks: nat, handled: Set<int>, permit: spec_fn(int) -> int)
        requires 0 < tasks <= 0x1fff_ffff_ffff_ffff, handled.finite(),
            forall|r: int| #[trigger] handled.contains(r) ==> 0 <= permit(r) < tasks_limit(tasks),
            forall|r: int, q: int| handled.contains(r) && handled.contains(q) && #[trigger] permit(r) == #[trigger] permit(q) ==> r == q,
        ensures handled.len() <= tasks
    { lemma_pigeons(handled, permit, tasks); }
