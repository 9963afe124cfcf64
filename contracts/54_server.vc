@# the server: handshake, dispatching, handling and answering of requests
@@ use tokio::net::TcpListener => crate::shim::TcpListener
@@ use tokio::sync::Semaphore => crate::shim::Semaphore
@@ world bind/1 accept/0 acquire/0 acquire_owned/0 vp_release/0!
@@ module shim
    // ---------- listening sockets
    #[verifier::external_body] pub struct TcpListener { _x: u8 }
    impl TcpListener {
        pub uninterp spec fn addr(&self) -> SocketAddr;
        #[verifier::external_body] pub async fn bind(addr: SocketAddr, Tracked(w): Tracked<&mut World>) -> (r: Result<TcpListener, StdIoError>)
            ensures final(w)@ == old(w)@.push(Ev::Listen { laddr: addr, lok: r is Ok }), r is Ok ==> r->Ok_0.addr() == addr { unimplemented!() }
        #[verifier::external_body] pub async fn accept(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(TcpStream, SocketAddr), StdIoError>)
            ensures match r { Ok((s, _)) => final(w)@ == old(w)@.push(Ev::Accept { aconn: s.conn() }), Err(_) => final(w)@ == old(w)@ } { unimplemented!() }
    }
    // ---------- semaphores: waiting for a permit of one without any would never end. None is ever closed here.
    #[verifier::external_body] pub struct Semaphore { _x: u8 }
    #[verifier::external_body] pub struct SemaphorePermit { _x: u8 }
    #[verifier::external_body] pub struct OwnedSemaphorePermit { _x: u8 }
    #[verifier::external_body] #[derive(Debug)] pub struct AcquireError { _x: u8 }
    impl Semaphore {
        pub uninterp spec fn id(&self) -> int;
        pub uninterp spec fn permits(&self) -> nat;
        #[verifier::external_body] pub fn new(n: usize) -> (r: Semaphore) requires n <= 0x1fff_ffff_ffff_ffff ensures r.permits() == n { unimplemented!() }
        #[verifier::external_body] pub async fn acquire(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<SemaphorePermit, AcquireError>) requires self.permits() >= 1
            ensures r is Ok, final(w)@ == old(w)@, final(w).held() == old(w).held().insert(self.id()) { unimplemented!() }
        #[verifier::external_body] pub async fn acquire_owned(self: Arc<Semaphore>, Tracked(w): Tracked<&mut World>) -> (r: Result<OwnedSemaphorePermit, AcquireError>) requires self.permits() >= 1
            ensures r is Ok, final(w)@ == old(w)@, final(w).held() == old(w).held().insert(self.id()) { unimplemented!() }
    }
    /// a permit is given back
    #[verifier::external_body] pub fn vp_release(Tracked(w): Tracked<&mut World>) ensures final(w)@ == old(w)@, final(w).held() == Set::<int>::empty() { unimplemented!() }
    // ---------- std
    pub assume_specification [ String::len ] (s: &String) -> (r: usize) ensures r == encode_utf8(s@).len(), r <= 0x7fff_ffff_ffff_ffff;
    pub assume_specification [ String::truncate ] (s: &mut String, n: usize)
        requires n <= encode_utf8(old(s)@).len() ==> is_char_boundary(encode_utf8(old(s)@), n as int)
        ensures n <= encode_utf8(old(s)@).len() ==> encode_utf8(final(s)@) == encode_utf8(old(s)@).take(n as int), n > encode_utf8(old(s)@).len() ==> final(s)@ == old(s)@;
    impl<T, const N: usize> VpIntoIter for [T; N] {
        type It = VpSeqIter<T>;
        #[verifier::external_body] fn vp_into_iter(self) -> (r: VpSeqIter<T>) ensures r@ == self@ { unimplemented!() }
    }
    pub open spec fn pairs_map<K: KeyView, V>(s: Seq<(K, V)>) -> Map<K::KV, V>
        decreases s.len()
    { if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0.kv(), s.last().1) } }
    impl<K: KeyView, V> HashMap<K, V> {
        #[verifier::external_body] pub fn from_iter(it: VpSeqIter<(K, V)>) -> (r: HashMap<K, V>) ensures r@ == pairs_map::<K, V>(it@) { unimplemented!() }
        #[verifier::external_body] pub fn from<const N: usize>(a: [(K, V); N]) -> (r: HashMap<K, V>) ensures r@ == pairs_map::<K, V>(a@) { unimplemented!() }
    }
@@ module errors
    impl TChannelError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    impl ConnectionError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    impl CodecError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    impl vstd::std_specs::convert::FromSpecImpl<SendError<TFrameId>> for TChannelError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: SendError<TFrameId>) -> Self; }
    impl vstd::std_specs::convert::FromSpecImpl<(u32, ConnectionError, Tracing)> for ConnectionError { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: (u32, ConnectionError, Tracing)) -> Self; }
@@ fn errors::<TChannelError as From<SendError>>::from :: props=C17
@ spec
    ensures r is ConnectionError,
@@ fn errors::<ConnectionError as From<(u32,ConnectionError,Tracing)>>::from :: props=C17
@ spec
    ensures r is MessageErrorId,
@@ item frames::headers::InitHeaderKey +eq
@@ item channel::SharedSubChannels
@@ item server::Server
@@ item server::TFramedRead
@@ item server::TFramedWrite
@@ item server::FrameHandler
@@ item server::MAX_ERROR_MSG_LENGTH
@@ item server::MAX_REQUEST_PERMITS
@@ fn frames::headers::<InitHeaderKey as Display>::fmt :: props=C14 display
@ spec
    ensures r@ == init_key(*self),
@@ module spec
    use crate::server::*;
    pub open spec fn init_key(k: InitHeaderKey) -> Seq<char> {
        match k { InitHeaderKey::HostPort => "host_port"@, InitHeaderKey::ProcessName => "process_name"@, InitHeaderKey::TChannelLanguage => "tchannel_language"@,
            InitHeaderKey::TChannelLanguageVersion => "tchannel_language_version"@, InitHeaderKey::TChannelVersion => "tchannel_version"@ }
    }
    /// an init request of the version the server speaks
    pub open spec fn hail(f: TFrame) -> bool { f.frame_type == Type::InitRequest && init_parse(f.payload@) is Some && (init_parse(f.payload@)->0).0.version == 2 }
    /// the answer to it
    pub open spec fn greets(f: TFrameId, id: u32) -> bool { f.id == id && f.frame.frame_type == Type::InitResponse && exists|v: InitV| v.version == 2 && hdr_fits(2, v.headers) && #[trigger] init_wire(v, f.frame.payload@) }
    /// what is read from a socket starts with an init request the server accepts
    pub open spec fn hailed(items: Seq<Result<TFrameId, CodecError>>) -> bool { items.len() > 0 && items[0] is Ok && hail(items[0]->Ok_0.frame) }
@@ fn server::Server::new :: props=C14,C17,C21
@ spec
    ensures r.subchannels == subchannels, r.buffer_size == buffer_size, r.server_tasks == server_tasks,
        r.frame_dispatchers.senders.first()@ == Map::<u32, Sender<TFrameId>>::empty(), r.frame_dispatchers.closed.first() == false,
@@ fn frames::TFrameId::frame_mut :: props=C14
@ spec
    ensures *r == old(self).frame, final(self).frame == *final(r), final(self).id == old(self).id,
@@ fn server::Server::check_init_req :: props=C14
@ spec
    requires old(frame_id).msg_ok()
    ensures final(frame_id).id == old(frame_id).id, r is Ok == hail(old(frame_id).frame),
        ({ let f = old(frame_id).frame; f.frame_type == Type::Error && error_parse(f.payload@) is Some ==>
            r->Err_0 is MessageErrorId && errorv(r->Err_0->MessageErrorId_0) == (error_parse(f.payload@)->0).0 && r->Err_0->MessageErrorId_1 == old(frame_id).id }),
@@ module spec
    /// one frame given to a socket, and whether it was taken
    pub open spec fn gave(conn: int, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        let e = l[l0.len() as int]; l =~= l0.push(e) && e is Write && e->conn == conn && e->ok == ok
    }
    pub proof fn lemma_init_headers(m: Map<Seq<char>, Seq<char>>)
        requires m == Map::<Seq<char>, Seq<char>>::empty().insert("tchannel_language"@, "rust"@)
        ensures hdr_fits(2, m)
    {
        reveal_strlit("tchannel_language"); reveal_strlit("rust");
        lemma_ascii_len("tchannel_language"@); lemma_ascii_len("rust"@);
        assert(Map::<Seq<char>, Seq<char>>::empty().len() == 0); assert(m.len() <= 1);
    }
@@ fn server::Server::send_init_res :: props=C14 world
@ spec
    ensures final(vp_w)@.len() == old(vp_w)@.len() + 1, gave(old(framed_write).conn(), old(vp_w)@, final(vp_w)@, r is Ok), greets(final(vp_w)@.last()->Write_frame, id), final(framed_write).conn() == old(framed_write).conn(),
@ hint before encode_bytes 0
    proof { reveal_with_fuel(crate::shim::pairs_map, 3); assert(initv(init).headers =~= Map::<Seq<char>, Seq<char>>::empty().insert("tchannel_language"@, "rust"@)); lemma_init_headers(initv(init).headers); }
@ hint before send 0
    assert(init_wire(initv(init), init_frame_id.frame.payload@));
@@ fn server::Server::handle_init_handshake :: props=C14 world
@ spec
    ensures hailed(old(framed_read)@) ==> final(vp_w)@.len() == old(vp_w)@.len() + 1 && gave(old(framed_write).conn(), old(vp_w)@, final(vp_w)@, r is Ok) && greets(final(vp_w)@.last()->Write_frame, old(framed_read)@[0]->Ok_0.id) && final(framed_read)@ == old(framed_read)@.skip(1),
        !hailed(old(framed_read)@) ==> r is Err && final(vp_w)@ =~= old(vp_w)@,
        final(framed_write).conn() == old(framed_write).conn(),
@@ fn server::Server::dispatch_frame :: props=C12,C17 world
@ spec
    requires frame.msg_ok()
    ensures ({ let l0 = old(vp_w)@; let l = final(vp_w)@; let n = l0.len() as int; let p = found(l, n); let d = *self.frame_dispatchers;
        if p.contains_key(frame.id) { r is Ok && r->Ok_0 is None && (followed(d, frame, l0, l, true) || followed(d, frame, l0, l, false)) }
        else { (r is Ok ==> r->Ok_0 is Some && (r->Ok_0->0).0 == frame.id && (r->Ok_0->0).1@ == arrives::<TFrameId>((r->Ok_0->0).1.chan())) && l.len() > n && began(d, frame, l0.push(reg_ev(d, p, p)), l, if r is Ok { Some((r->Ok_0->0).1.chan()) } else { None }) }
    }),
@ closure 0
    |receiver_option: Option<FrameInput>| -> (r: Option<(u32, FrameInput)>) ensures match receiver_option { Some(x) => r == Some((id, x)), None => r is None }
@ closure 1
    |receiver: FrameInput| -> (r: (u32, FrameInput)) ensures r == (id, receiver)
@@ module spec
    /// how many requests of a connection are handled at once for this number of tasks, 0 being no limit: that many requests fit into no memory
    pub open spec fn tasks_limit(tasks: nat) -> nat { if tasks == 0 || tasks > 0x1fff_ffff_ffff_ffff { 0x1fff_ffff_ffff_ffff } else { tasks } }
@@ fn server::request_permits :: props=C17,C21
@ spec
    ensures r.permits() >= 1, r.permits() == tasks_limit(server_tasks as nat),
@ hint start
    proof { assert((usize::MAX >> 3usize) == 0x1fff_ffff_ffff_ffffusize) by (compute); }
@@ module spec
    /// an error message for a request, in one frame
    pub open spec fn errs(f: TFrameId, id: u32) -> bool { f.id == id && f.frame.frame_type == Type::Error && exists|v: ErrorV| str_fits(2, v.message) && f.frame.payload@ == #[trigger] error_wire(v) }
@@ module spec
    pub proof fn lemma_error_len(v: ErrorV)
        requires tracing_ok(v.tracing)
        ensures error_wire(v).len() == 28 + encode_utf8(v.message).len()
    { reveal(str_wire); lemma_tracing(v.tracing, seq![]); assert(str_wire(2, v.message).len() == 2 + encode_utf8(v.message).len()); }
@@ fn server::FrameHandler::to_error_frame :: props=C04,C13,C17
@ spec
    ensures r is Ok, errs(r->Ok_0, id), r->Ok_0.msg_ok(),
@ loop 0
    invariant len <= encode_utf8(msg@).len(), len <= 65519 - 28,
    ensures is_char_boundary(encode_utf8(msg@), len as int),
    decreases len
@ hint loopstart 0
    proof { encode_utf8_valid_utf8(msg@); is_char_boundary_start_end_of_seq(encode_utf8(msg@)); }
@ hint after new 1
    proof { lemma_error_len(errorv(err)); }
@@ fn server::FrameHandler::get_subchannel :: props=C15,C17,C21 world
@ spec
    ensures ({ let p = final(vp_w)@[old(vp_w)@.len() as int]->spre; final(vp_w)@ =~= old(vp_w)@.push(subs_ev(self.subchannels.id(), p, p))
        && match r { Ok(s) => p.contains_key(service.sv()) && s == p[service.sv()], Err(_) => !p.contains_key(service.sv()) } }),
        final(vp_w).held() == old(vp_w).held(),
@@ module spec
    pub open spec fn subs_ev(lock: int, p: SubMap, q: SubMap) -> Ev { Ev::Subs { lock, spre: p, spost: q } }
    pub open spec fn all_ids(fs: Seq<TFrameId>, id: u32) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).id == id }
    pub open spec fn bare(fs: Seq<TFrameId>) -> Seq<TFrame> { fs.map_values(|f: TFrameId| f.frame) }
    pub open spec fn fine(fs: Seq<TFrameId>) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).msg_ok() }
    /// the frames that answer a request whose handling ended like this
    pub open spec fn reply(id: u32, service: Seq<char>, x: MessageArgsResponse, r: Option<Seq<TFrameId>>) -> bool {
        match x {
            Err(_) => r is None,
            Ok((code, args)) => r is Some && all_ids(r->0, id) && response_frames(bare(r->0), code, args.arg_scheme, service, bytes_list(args.args@)),
        }
    }
    /// a request that was read from these frames was handled, or could not be
    pub open spec fn outcome(d: FramesDispatcher, subs: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, r: Option<Seq<TFrameId>>) -> bool {
        let n = l0.len() as int; let p = found(l, n); let l1 = l0.push(reg_ev(d, p, p.remove(id)));
        match req_read(fs) {
            None => r is None && l =~= l1,
            Some((f, s, a)) => { let m = l[n + 1]->spre; let l2 = l1.push(subs_ev(subs, m, m));
                if !m.contains_key(f.service) { r is None && l =~= l2 }
                else { exists|x: MessageArgsResponse| #[trigger] routed(*m[f.service], s, a, l2, l, x) && reply(id, f.service, x, r) } },
        }
    }
    pub proof fn lemma_outcome(d: &FramesDispatcher, subs: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, x: MessageArgsResponse)
        requires ({ let n = l0.len() as int; let p = found(l, n); let m = l[n + 1]->spre; let (f, s, a) = req_read(fs)->0;
            req_read(fs) is Some && m.contains_key(f.service) && routed(*m[f.service], s, a, l0.push(reg_ev(*d, p, p.remove(id))).push(subs_ev(subs, m, m)), l, x) })
        ensures forall|r: Option<Seq<TFrameId>>| #[trigger] reply(id, (req_read(fs)->0).0.service, x, r) ==> outcome(*d, subs, id, fs, l0, l, r)
    {}
    pub proof fn lemma_service_fits(fs: Seq<TFrameId>)
        ensures req_read(fs) is Some ==> str_fits(1, (req_read(fs)->0).0.service)
    { if req_read(fs) is Some { lemma_reqf_refit(fs[0].frame.payload@.skip(1)); } }
    pub proof fn lemma_response_fine(fs: Seq<TFrame>, code: ResponseCode, scheme: ArgSchemeValue, service: Seq<char>, args: Args)
        requires response_frames(fs, code, scheme, service, args)
        ensures fs.len() >= 1, forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).payload@.len() <= 65535
    {}
@@ fn frames::payloads::CallRequestFields::service :: props=C05,C15,C17 auto
@@ fn server::FrameHandler::handle_input :: props=C11,C12,C13,C15,C17,C21 world
@ spec
    requires self.permits.permits() >= 1
    ensures outcome(*self.frame_dispatchers, self.subchannels.id(), id, frame_input@, old(vp_w)@, final(vp_w)@, if r is Ok { Some(r->Ok_0@) } else { None }),
        r is Ok ==> fine(r->Ok_0@),
@ hint start
    let ghost vp_in = frame_input@; proof { lemma_service_fits(vp_in); }
    let ghost vp_l0 = vp_w@; let ghost vp_h0 = vp_w.held();
@ hint before read_request 0
    // requests that are incomplete do not count
    assert(vp_w.held() == vp_h0);
@ hint before handle 0
    // no more requests are handled at once than the connection has permits
    assert(vp_w.held().contains(self.permits.id()));
@ hint after get_subchannel 0
    let ghost vp_m = vp_w@.last()->spre; let ghost vp_l2 = vp_w@; let ghost vp_p = vp_w@[vp_l0.len() as int]->rpre;
    let ghost vp_s = message_args.arg_scheme; let ghost vp_a = bytes_list(message_args.args@);
    assert(req_read(vp_in) == Some((reqfv(request_fields), vp_s, vp_a)));
    assert(vp_m.contains_key(request_fields.service@)); assert(*subchannel == *vp_m[request_fields.service@]);
    assert(vp_l2 == vp_l0.push(reg_ev(*self.frame_dispatchers, vp_p, vp_p.remove(id))).push(subs_ev(self.subchannels.id(), vp_m, vp_m)));
@ hint try handle 0
    proof {
        let n = vp_l0.len() as int; let l = vp_w@;
        assert(l[n] == vp_l2[n]); assert(l[n + 1] == vp_l2[n + 1]);
        lemma_outcome(&*self.frame_dispatchers, self.subchannels.id(), id, vp_in, vp_l0, l, vp_q);
    }
@ hint after handle 0
    let ghost vp_x: crate::messages::args::MessageArgsResponse = Ok((response_code, response_args));
@ hint tail
    proof { assert(vp_tail is Ok ==> reply(id, request_fields.service@, vp_x, Some(vp_tail->Ok_0@))); }
@ hint preloop 0
    let ghost vp_all = vp_s@; let ghost mut vp_i: int = 0;
    proof { lemma_response_fine(vp_all, response_code, response_args.arg_scheme, request_fields.service@, bytes_list(response_args.args@)); }
@ loop 0
    invariant 0 <= vp_i <= vp_all.len(), vp_s@ == vp_all.skip(vp_i), vp_c@.len() == vp_i, forall|i: int| 0 <= i < vp_i ==> #[trigger] vp_c@[i] == (TFrameId { id, frame: vp_all[i] }),
    ensures vp_i == vp_all.len(),
    decreases vp_all.len() - vp_i
@ hint loopend 0
    proof { vp_i = vp_i + 1; }
@ hint postloop 0
    proof { assert(bare(vp_c@) =~= vp_all); }
@@ module spec
    /// frames were put into a channel in order: all of them, or as many as were taken before its receiver was gone
    pub open spec fn sents(chan: int, fs: Seq<TFrameId>) -> Seq<Ev> { fs.map_values(|f: TFrameId| Ev::Sent { chan, frame: f }) }
    pub open spec fn sent_all(chan: int, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        if ok { l =~= l0 + sents(chan, fs) } else { let k = l.len() - l0.len() - 1; 0 <= k < fs.len() && l =~= l0 + sents(chan, fs.take(k)) + seq![Ev::Gone { chan }] }
    }
@@ fn server::FrameHandler::send_frames :: props=C13,C17 world
@ spec
    requires fine(frames@)
    ensures sent_all(self.sender.chan(), frames@, old(vp_w)@, final(vp_w)@, r is Ok),
@ hint start
    let ghost vp_fs = frames@; let ghost mut vp_i: int = 0; let ghost vp_l0 = vp_w@; let ghost vp_c = self.sender.chan();
@ hint preloop 0
    proof { assert(vp_l0 + sents(vp_c, vp_fs.take(0)) =~= vp_l0); }
@ loop 0
    invariant 0 <= vp_i <= vp_fs.len(), vp_it0@ == vp_fs.skip(vp_i), fine(vp_fs), vp_c == self.sender.chan(), vp_w@ =~= vp_l0 + sents(vp_c, vp_fs.take(vp_i)), vp_l0 == old(vp_w)@, vp_fs == frames@,
    ensures vp_i == vp_fs.len(),
    decreases vp_fs.len() - vp_i
@ hint loopend 0
    proof { assert(sents(vp_c, vp_fs.take(vp_i + 1)) =~= sents(vp_c, vp_fs.take(vp_i)).push(Ev::Sent { chan: vp_c, frame: vp_fs[vp_i] })); vp_i = vp_i + 1; }
@ hint postloop 0
    proof { assert(vp_fs.take(vp_i) =~= vp_fs); }
@@ module spec
    /// a request was handled and its frames, or one error frame, were sent under its id
    pub open spec fn answered(d: FramesDispatcher, subs: int, chan: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        exists|mid: Seq<Ev>, r: Option<Seq<TFrameId>>, out: Seq<TFrameId>| #[trigger] outcome(d, subs, id, fs, l0, mid, r)
            && (match r { Some(x) => out == x, None => out.len() == 1 && errs(out[0], id) }) && #[trigger] sent_all(chan, out, mid, l, ok)
    }
@@ fn server::FrameHandler::new :: props=C17,C21 auto
@@ fn server::FrameHandler::handle :: props=C11,C13,C17,C21 world
@ spec
    requires self.permits.permits() >= 1
    ensures answered(*self.frame_dispatchers, self.subchannels.id(), self.sender.chan(), id, frame_input@, old(vp_w)@, final(vp_w)@, r is Ok),
@@ module spec
    /// one thing read from a socket was served: a frame of a request went to it, a frame that starts one made it handled and
    /// answered; not when it is no frame, the exchange could not be started, or the answer could not be sent
    pub open spec fn step(d: FramesDispatcher, subs: int, chan: int, item: Result<TFrameId, CodecError>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        match item {
            Err(_) => !ok && l == l0,
            Ok(f) => { let p = found(l, l0.len() as int);
                if p.contains_key(f.id) { ok && (followed(d, f, l0, l, true) || followed(d, f, l0, l, false)) }
                else { !ok && began(d, f, l0.push(reg_ev(d, p, p)), l, None) || exists|c: int, mid: Seq<Ev>| #[trigger] began(d, f, l0.push(reg_ev(d, p, p)), mid, Some(c)) && #[trigger] answered(d, subs, chan, f.id, arrives::<TFrameId>(c), mid, l, ok) } },
        }
    }
    /// everything read was served one by one; when one could not be, none after it was
    pub open spec fn served(d: FramesDispatcher, subs: int, chan: int, items: Seq<Result<TFrameId, CodecError>>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool
        decreases items.len()
    {
        if items.len() == 0 { ok && l == l0 } else { exists|mid: Seq<Ev>| served(d, subs, chan, items.drop_last(), l0, mid, true) && #[trigger] step(d, subs, chan, items.last(), mid, l, ok) }
    }
    pub proof fn lemma_served(d: &FramesDispatcher, subs: int, chan: int, items: Seq<Result<TFrameId, CodecError>>, l0: Seq<Ev>, mid: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires items.len() > 0, served(*d, subs, chan, items.drop_last(), l0, mid, true), step(*d, subs, chan, items.last(), mid, l, ok)
        ensures served(*d, subs, chan, items, l0, l, ok)
    {}
    pub open spec fn extends(l0: Seq<Ev>, l: Seq<Ev>) -> bool { l.len() >= l0.len() && l.take(l0.len() as int) =~= l0 }
    pub proof fn lemma_extends(l0: Seq<Ev>, a: Seq<Ev>, l: Seq<Ev>)
        requires extends(l0, a), extends(a, l)
        ensures extends(l0, l)
    { assert forall|i: int| 0 <= i < l0.len() implies l[i] == l0[i] by { assert(l.take(a.len() as int)[i] == a[i]); assert(a.take(l0.len() as int)[i] == l0[i]); } }
    pub proof fn lemma_answered_extends(d: &FramesDispatcher, subs: int, chan: int, id: u32, fs: Seq<TFrameId>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires answered(*d, subs, chan, id, fs, l0, l, ok)
        ensures extends(l0, l)
    {
        let (mid, r, out) = choose|mid: Seq<Ev>, r: Option<Seq<TFrameId>>, out: Seq<TFrameId>| #[trigger] outcome(*d, subs, id, fs, l0, mid, r)
            && (match r { Some(x) => out == x, None => out.len() == 1 && errs(out[0], id) }) && #[trigger] sent_all(chan, out, mid, l, ok);
        assert(extends(l0, mid)); assert(extends(mid, l)); lemma_extends(l0, mid, l);
    }
    pub proof fn lemma_began_extends(d: FramesDispatcher, f: TFrameId, l0: Seq<Ev>, l: Seq<Ev>, r: Option<int>)
        requires began(d, f, l0, l, r)
        ensures extends(l0, l)
    {}
    pub proof fn lemma_followed_extends(d: FramesDispatcher, f: TFrameId, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires followed(d, f, l0, l, ok)
        ensures extends(l0, l)
    {}
    pub proof fn lemma_pushed_extends(l0: Seq<Ev>, e: Ev, l: Seq<Ev>)
        requires extends(l0.push(e), l)
        ensures extends(l0, l)
    { assert(l0.push(e).take(l0.len() as int) =~= l0); assert(l.take(l0.len() as int) =~= l.take(l0.len() as int + 1).take(l0.len() as int)); }
    pub proof fn lemma_step_extends(d: &FramesDispatcher, subs: int, chan: int, item: Result<TFrameId, CodecError>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires step(*d, subs, chan, item, l0, l, ok)
        ensures extends(l0, l)
    {
        hide(began); hide(followed); hide(answered); hide(extends);
        if let Ok(f) = item {
            let p = found(l, l0.len() as int); let e = reg_ev(*d, p, p);
            if p.contains_key(f.id) {
                if followed(*d, f, l0, l, true) { lemma_followed_extends(*d, f, l0, l, true); } else { lemma_followed_extends(*d, f, l0, l, false); }
            } else {
                if began(*d, f, l0.push(e), l, None) && !ok { lemma_began_extends(*d, f, l0.push(e), l, None); }
                else {
                    let (c, mid) = choose|c: int, mid: Seq<Ev>| #[trigger] began(*d, f, l0.push(e), mid, Some(c)) && #[trigger] answered(*d, subs, chan, f.id, arrives::<TFrameId>(c), mid, l, ok);
                    lemma_began_extends(*d, f, l0.push(e), mid, Some(c)); lemma_answered_extends(d, subs, chan, f.id, arrives::<TFrameId>(c), mid, l, ok);
                    lemma_extends(l0.push(e), mid, l);
                }
                lemma_pushed_extends(l0, e, l);
            }
        } else { reveal(extends); }
    }
    pub proof fn lemma_served_extends(d: &FramesDispatcher, subs: int, chan: int, items: Seq<Result<TFrameId, CodecError>>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool)
        requires served(*d, subs, chan, items, l0, l, ok)
        ensures extends(l0, l)
        decreases items.len()
    {
        if items.len() > 0 {
            let mid = choose|mid: Seq<Ev>| served(*d, subs, chan, items.drop_last(), l0, mid, true) && #[trigger] step(*d, subs, chan, items.last(), mid, l, ok);
            lemma_served_extends(d, subs, chan, items.drop_last(), l0, mid, true); lemma_step_extends(d, subs, chan, items.last(), mid, l, ok); lemma_extends(l0, mid, l);
        }
    }
    /// the requests of a connection after its handshake: up to the end of the input, or up to the first thing that could not be served
    pub open spec fn serving(d: FramesDispatcher, subs: int, conn: int, items: Seq<Result<TFrameId, CodecError>>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        let n = l0.len() as int; let t = l[n];
        l.len() >= n + 1 && t is Task
            && exists|k: int, c: int| writes(t->log, c, conn) && 0 <= k <= items.len() && (ok ==> k == items.len()) && #[trigger] served(d, subs, c, items.take(k), l0.push(t), l, ok)
    }
    /// all that is done with an accepted connection
    pub open spec fn session(d: FramesDispatcher, subs: int, conn: int, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        let n = l0.len() as int; let items = crate::shim::incoming(conn);
        if !hailed(items) { !ok && l =~= l0 }
        else { l.len() > n && greets(l[n]->Write_frame, items[0]->Ok_0.id) && (gave(conn, l0, l, false) && !ok || gave(conn, l0, l0.push(l[n]), true) && serving(d, subs, conn, items.skip(1), l0.push(l[n]), l, ok)) }
    }
@@ fn server::Server::handle_connection :: props=C12,C14,C17,C21 world isolated
@ spec
    ensures session(*old(self).frame_dispatchers, old(self).subchannels.id(), stream.conn(), old(vp_w)@, final(vp_w)@, r is Ok), *final(self) == *old(self),
@ hint start
    let ghost vp_conn = stream.conn();
@ hint after handle_init_handshake 0
    let ghost vp_l1 = vp_w@;
@ hint preloop 0
    let ghost vp_all = vp_s@; let ghost mut vp_i: int = 0; let ghost vp_l0 = vp_w@; let ghost vp_subs = self.subchannels.id(); let ghost vp_ch = handler.sender.chan();
    proof { assert(vp_all.take(0) =~= seq![]); }
    assert(handler.permits.permits() == tasks_limit(self.server_tasks as nat));
@ loop 0
    invariant_except_break 0 <= vp_i <= vp_all.len(), vp_s@ == vp_all.skip(vp_i), vp_r is Ok,
        served(*self.frame_dispatchers, vp_subs, vp_ch, vp_all.take(vp_i), vp_l0, vp_w@, true),
    invariant handler.permits.permits() >= 1, handler.frame_dispatchers == self.frame_dispatchers, handler.subchannels.id() == vp_subs, handler.sender.chan() == vp_ch,
    ensures 0 <= vp_i <= vp_all.len(), vp_r is Ok ==> vp_i == vp_all.len(), served(*self.frame_dispatchers, vp_subs, vp_ch, vp_all.take(vp_i), vp_l0, vp_w@, vp_r is Ok),
    decreases vp_all.len() - vp_i
@ hint loopstart 0
    let ghost vp_m = vp_w@; let ghost vp_h = vp_s@;
@ hint loopbreak 0
    proof { assert(vp_all.take(vp_i + 1).drop_last() =~= vp_all.take(vp_i)); assert(vp_all.take(vp_i + 1).last() == vp_h[0]);
        lemma_served(&*self.frame_dispatchers, vp_subs, vp_ch, vp_all.take(vp_i + 1), vp_l0, vp_m, vp_w@, false); vp_i = vp_i + 1; }
@ hint loopend 0
    proof { assert(vp_all.take(vp_i + 1).drop_last() =~= vp_all.take(vp_i)); assert(vp_all.take(vp_i + 1).last() == vp_h[0]);
        lemma_served(&*self.frame_dispatchers, vp_subs, vp_ch, vp_all.take(vp_i + 1), vp_l0, vp_m, vp_w@, true); vp_i = vp_i + 1; }
@ hint postloop 0
    proof { let n = vp_l1.len() as int; let t = vp_l0[n]; assert(vp_l0 =~= vp_l1.push(t));
        assert(vp_l1 =~= old(vp_w)@.push(vp_l1[n - 1]));
        lemma_served_extends(&*self.frame_dispatchers, vp_subs, vp_ch, vp_all.take(vp_i), vp_l0, vp_w@, vp_r is Ok);
        assert(vp_w@[n] == vp_w@.take(vp_l0.len() as int)[n]); assert(vp_w@[n - 1] == vp_w@.take(vp_l0.len() as int)[n - 1]);
        assert(vp_w@.len() >= vp_l0.len()); assert(vp_w@[n] == vp_l0[n]); assert(vp_w@[n - 1] == vp_l1[n - 1]);
        assert(vp_all == crate::shim::incoming(vp_conn).skip(1));
        assert(t is Task); assert(writes(t->log, vp_ch, vp_conn));
        assert(served(*self.frame_dispatchers, vp_subs, vp_ch, vp_all.take(vp_i), vp_l1.push(t), vp_w@, vp_r is Ok));
        assert(serving(*self.frame_dispatchers, vp_subs, vp_conn, vp_all, vp_l1, vp_w@, vp_r is Ok)); }
@@ module spec
    /// a connection was handled by a dispatcher of its own, which knew no request before
    pub open spec fn tended(d: FramesDispatcher, subs: int, conn: int, log: Seq<Ev>, ok: bool) -> bool {
        d.senders.first()@ == Map::<u32, Sender<TFrameId>>::empty() && d.closed.first() == false && session(d, subs, conn, Seq::empty(), log, ok)
    }
    pub open spec fn hosted(subs: int, conn: int, log: Seq<Ev>) -> bool { exists|d: FramesDispatcher, ok: bool| #[trigger] tended(d, subs, conn, log, ok) }
    /// connections are accepted one after the other and each one is handled by a task of its own
    pub open spec fn accepting(subs: int, k: nat, l0: Seq<Ev>, l: Seq<Ev>) -> bool
        decreases k
    {
        if k == 0 { l == l0 } else {
            let n = l.len() as int;
            n >= 2 && l[n - 2] is Accept && l[n - 1] is Task && hosted(subs, l[n - 2]->aconn, l[n - 1]->log) && accepting(subs, (k - 1) as nat, l0, l.take(n - 2))
        }
    }
@@ fn server::Server::run :: props=C14,C16,C21 world tasks
@ attrs
    #[verifier::exec_allows_no_decreases_clause]
@ spec
    ensures r is Err, ({ let l0 = old(vp_w)@; let l = final(vp_w)@; let n = l0.len() as int; let e = Ev::Listen { laddr: config.server_address, lok: l[n]->lok };
        l.len() > n && l[n] == e && if e->lok { exists|k: nat| #[trigger] accepting(subchannels.id(), k, l0.push(e), l) } else { l =~= l0.push(e) } }),
@ hint after bind 0
    let ghost vp_l1 = vp_w@; let ghost mut vp_k: nat = 0;
@ loop 0
    invariant accepting(subchannels.id(), vp_k, vp_l1, vp_w@), vp_w@.len() >= vp_l1.len(), vp_w@.take(vp_l1.len() as int) =~= vp_l1, vp_l1 =~= old(vp_w)@.push(Ev::Listen { laddr: config.server_address, lok: true }), vp_l1[old(vp_w)@.len() as int] == vp_w@[old(vp_w)@.len() as int],
@ hint loopstart 0
    let ghost vp_m = vp_w@;
@ hint after new 0
    assert(server.server_tasks == config.server_tasks);
@ hint loopend 0
    proof { vp_k = vp_k + 1; assert(vp_w@.take(vp_w@.len() - 2) =~= vp_m);
      let n = vp_w@.len() as int; assert(vp_w@[n-2] is Accept); assert(vp_w@[n-1] is Task); 
      assert(tended(*server.frame_dispatchers, subchannels.id(), vp_w@[n - 2]->aconn, vp_w@[n - 1]->log, true) || tended(*server.frame_dispatchers, subchannels.id(), vp_w@[n - 2]->aconn, vp_w@[n - 1]->log, false)); }
