@@ module spec
    // ---------- histories of the pending ids of a connection
    /// what one transaction does to the pending ids
    pub enum RegOp { Same, Add { id: u32, s: Sender<TFrameId> }, Del { id: u32 }, Clear }
    pub open spec fn reg_op(p: Reg, o: RegOp) -> Reg {
        match o { RegOp::Same => p, RegOp::Add { id, s } => p.insert(id, s), RegOp::Del { id } => p.remove(id), RegOp::Clear => Map::empty() }
    }
    pub open spec fn reg_run(ops: Seq<RegOp>) -> Reg
        decreases ops.len()
    { if ops.len() == 0 { Map::empty() } else { reg_op(reg_run(ops.drop_last()), ops.last()) } }
    /// a history in which an id is only added when it is not in use
    pub open spec fn reg_hist(ops: Seq<RegOp>) -> bool
        decreases ops.len()
    { ops.len() > 0 ==> reg_hist(ops.drop_last()) && match ops.last() { RegOp::Add { id, .. } => !reg_run(ops.drop_last()).contains_key(id), _ => true } }
    /// the exchange an id belongs to: the last one that was opened under it, unless it was closed since
    pub open spec fn holder(ops: Seq<RegOp>, id: u32) -> Option<Sender<TFrameId>>
        decreases ops.len()
    {
        if ops.len() == 0 { None } else { match ops.last() {
            RegOp::Add { id: i, s } if i == id => Some(s),
            RegOp::Del { id: i } if i == id => None,
            RegOp::Clear => None,
            _ => holder(ops.drop_last(), id),
        } }
    }
    /// C12: every transaction of the functions under contract is one of these operations, and only they touch the pending ids
    pub proof fn theorem_c12_operations(d: FramesDispatcher, f: TFrameId, id: u32, s: Sender<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool, c: Option<int>)
        ensures ({ let n = l0.len() as int; let p = found(l, n); let q = l[n]->rpost;
            &&& followed(d, f, l0, l, ok) ==> l[n] == reg_ev(d, p, reg_op(p, RegOp::Same))
            &&& began(d, f, l0, l, c) ==> l[n] == reg_ev(d, p, reg_op(p, if c is Some { RegOp::Add { id: f.id, s: q[f.id] } } else { RegOp::Same })) && (c is Some ==> !p.contains_key(f.id))
            &&& registered(d, id, s, l0, l, ok) ==> l[n] == reg_ev(d, p, reg_op(p, if ok { RegOp::Add { id, s } } else { RegOp::Same })) && (ok ==> !p.contains_key(id))
            &&& closed_ev(d, l0, l) ==> l[n] == reg_ev(d, p, reg_op(p, RegOp::Clear))
        })
    {}
    /// C12: a received frame goes to the exchange its id belongs to and nowhere else; without one it goes nowhere
    pub proof fn theorem_c12_delivery(d: FramesDispatcher, f: TFrameId, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires followed(d, f, l0, l, ok)
        ensures ({ let p = found(l, l0.len() as int);
            &&& forall|i: int| l0.len() <= i < l.len() && #[trigger] l[i] is Sent ==> p.contains_key(f.id) && l[i] == (Ev::Sent { chan: p[f.id].chan(), frame: f })
            &&& ok ==> p.contains_key(f.id) && l.last() == (Ev::Sent { chan: p[f.id].chan(), frame: f })
        })
    {}
    /// C12: a frame that starts an exchange goes to the channel of that exchange alone, and the other exchanges are untouched
    pub proof fn theorem_c12_start(d: FramesDispatcher, f: TFrameId, l0: Seq<Ev>, l: Seq<Ev>, c: int)
        requires began(d, f, l0, l, Some(c))
        ensures ({ let p = found(l, l0.len() as int); let q = l[l0.len() as int]->rpost;
            &&& !p.contains_key(f.id) && q.contains_key(f.id) && q[f.id].chan() == c
            &&& forall|i: u32| i != f.id ==> q.contains_key(i) == p.contains_key(i) && (p.contains_key(i) ==> #[trigger] q[i] == p[i])
            &&& forall|i: int| l0.len() <= i < l.len() && #[trigger] l[i] is Sent ==> l[i] == (Ev::Sent { chan: c, frame: f })
        })
    {}
    /// C12: at every point of every history an id belongs to the exchange last opened under it, if that was not closed since
    pub proof fn theorem_c12_history(ops: Seq<RegOp>, id: u32)
        ensures reg_run(ops).contains_key(id) == (holder(ops, id) is Some), reg_run(ops).contains_key(id) ==> reg_run(ops)[id] == holder(ops, id)->0
        decreases ops.len()
    { if ops.len() > 0 { theorem_c12_history(ops.drop_last(), id); } }
    /// the channels of exchanges are fresh: none is used for two of them
    pub open spec fn fresh_chans(ops: Seq<RegOp>) -> bool {
        forall|i: int, j: int| 0 <= i < j < ops.len() ==> match (#[trigger] ops[i], #[trigger] ops[j]) { (RegOp::Add { s, .. }, RegOp::Add { s: t, .. }) => s.chan() != t.chan(), _ => true }
    }
    pub proof fn lemma_added(ops: Seq<RegOp>, id: u32)
        requires reg_run(ops).contains_key(id)
        ensures exists|i: int| 0 <= i < ops.len() && #[trigger] ops[i] == (RegOp::Add { id, s: reg_run(ops)[id] })
        decreases ops.len()
    {
        let l = ops.last();
        if l == (RegOp::Add { id, s: reg_run(ops)[id] }) { assert(ops[ops.len() - 1] == l); }
        else {
            lemma_added(ops.drop_last(), id);
            let i = choose|i: int| 0 <= i < ops.drop_last().len() && #[trigger] ops.drop_last()[i] == (RegOp::Add { id, s: reg_run(ops.drop_last())[id] });
            assert(ops[i] == ops.drop_last()[i]);
        }
    }
    /// C12: no two ids share a channel, so what is delivered to one exchange reaches no other
    pub proof fn theorem_c12_no_sharing(ops: Seq<RegOp>, a: u32, b: u32)
        requires fresh_chans(ops), a != b, reg_run(ops).contains_key(a), reg_run(ops).contains_key(b)
        ensures reg_run(ops)[a].chan() != reg_run(ops)[b].chan()
    {
        lemma_added(ops, a); lemma_added(ops, b);
        let i = choose|i: int| 0 <= i < ops.len() && #[trigger] ops[i] == (RegOp::Add { id: a, s: reg_run(ops)[a] });
        let j = choose|i: int| 0 <= i < ops.len() && #[trigger] ops[i] == (RegOp::Add { id: b, s: reg_run(ops)[b] });
        assert(ops[i] == (RegOp::Add { id: a, s: reg_run(ops)[a] }) && ops[j] == (RegOp::Add { id: b, s: reg_run(ops)[b] }));
        if i < j {} else {}
    }
    /// C12: registering an id in use fails and changes nothing; removing an id removes only that one
    pub proof fn theorem_c12_exclusive(d: FramesDispatcher, id: u32, s: Sender<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool, p: Reg, i: u32)
        ensures
            registered(d, id, s, l0, l, ok) && found(l, l0.len() as int).contains_key(id) ==> !ok && l[l0.len() as int]->rpost == found(l, l0.len() as int),
            i != id ==> p.remove(id).contains_key(i) == p.contains_key(i) && (p.contains_key(i) ==> p.remove(id)[i] == p[i]),
            !p.remove(id).contains_key(id),
    {}
    /// C13: an exchange gets an id that no pending exchange has, and leaves the others as they are
    pub proof fn theorem_c13_distinct(c: Connection, l0: Seq<Ev>, l: Seq<Ev>, rest: Seq<Ev>, i: u32)
        requires opened(c, l0, l, rest)
        ensures ({ let n = l0.len(); let id = got_id(l, n); let p = found(l, n as int + 1); let q = l[n as int + 1]->rpost;
            &&& !p.contains_key(id) && q.contains_key(id) && q[id].chan() == got_chan(l, n)
            &&& i != id ==> q.contains_key(i) == p.contains_key(i) && (p.contains_key(i) ==> q[i] == p[i])
        })
    {}
    /// C13: an exchange that cannot be opened leaves the pending ones as they are
    pub proof fn theorem_c13_refused(c: Connection, l0: Seq<Ev>, l: Seq<Ev>)
        requires not_opened(c, l0, l)
        ensures l[l0.len() as int + 1]->rpost == found(l, l0.len() as int + 1)
    {}
    /// C13: the ids handed out are those of a counter, so that 2^32 exchanges in a row have different ones
    pub proof fn theorem_c13_counter(ids: Seq<u32>, i: int, j: int)
        requires forall|k: int| 0 <= k < ids.len() - 1 ==> #[trigger] ids[k + 1] == ((ids[k] + 1) % 0x1_0000_0000) as u32, 0 <= i < j < ids.len(), j - i < 0x1_0000_0000
        ensures ids[i] != ids[j], ids[j] as int == (ids[i] + (j - i)) % 0x1_0000_0000
        decreases j
    {
        assert(ids[(j - 1) + 1] == ((ids[j - 1] + 1) % 0x1_0000_0000) as u32);
        if i < j - 1 { theorem_c13_counter(ids, i, j - 1); }
    }
    /// C13: what is written to the socket is what was passed to the writer, frame by frame and in order
    pub proof fn theorem_c13_written(fs: Seq<TFrameId>, conn: int, l0: Seq<Ev>, l: Seq<Ev>, i: int)
        requires wrote(fs, conn, l0, l), 0 <= i < fs.len()
        ensures l[l0.len() + i] is Write, l[l0.len() + i]->Write_frame == fs[i], l[l0.len() + i]->conn == conn
    {}
    /// C18: once the connection is closed every attempt to open an exchange on it fails and nothing is pending any more
    pub proof fn theorem_c18_closed(d: FramesDispatcher, id: u32, s: Sender<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, m0: Seq<Ev>, m: Seq<Ev>, ok: bool)
        requires closed_ev(d, l0, l), registered(d, id, s, m0, m, ok),
            // a load after the store sees it: nothing ever stores false
            m.len() > m0.len() + 1 ==> m[m0.len() as int + 1] == (Ev::Load { cell: d.closed.id(), val: true })
        ensures !ok, m[m0.len() as int]->rpost == found(m, m0.len() as int), l[l0.len() as int]->rpost =~= Map::<u32, Sender<TFrameId>>::empty()
    {}
    /// C18: a call that got no frame before its channel ended is an error, as is one on a closed connection
    pub proof fn theorem_c18_ends(c: Connection, f: TFrame, l0: Seq<Ev>, l: Seq<Ev>, r: ConnectionResult<TFrameId>)
        requires one_sent(c, f, l0, l, r)
        ensures r is Ok ==> arrives::<TFrameId>(got_chan(l, l0.len())).len() > 0, r is Ok ==> !l[l0.len() as int + 2]->Load_val
    {}
