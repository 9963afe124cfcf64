@# the client side of a call
@@ use std::net::ToSocketAddrs => crate::shim::ToSocketAddrs
@@ module shim
    /// `e?` makes its error with `From::from`
    pub broadcast axiom fn vp_question<S: vstd::std_specs::convert::FromSpec<T>, T>(t: T, s: S)
        ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(t, s) && S::obeys_from_spec() ==> s == S::from_spec(t);
    /// name resolution: what a host stands for, when it is asked
    pub trait ToSocketAddrs: Sized {
        spec fn stands_for(&self, a: Seq<SocketAddr>) -> bool;
        fn to_socket_addrs(&self) -> (r: Result<AddrIter, StdIoError>) ensures r is Ok ==> self.stands_for(r->Ok_0@);
    }
    #[verifier::external_body] pub struct AddrIter { _x: u8 }
    impl View for AddrIter { type V = Seq<SocketAddr>; uninterp spec fn view(&self) -> Seq<SocketAddr>; }
    impl AddrIter {
        #[verifier::external_body] pub fn next(&mut self) -> (r: Option<SocketAddr>)
            ensures match r { Some(a) => old(self)@.len() > 0 && a == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    }
@@ module spec
    use crate::shim::ToSocketAddrs;
    /// the first address a host stands for
    pub open spec fn at<A: ToSocketAddrs>(host: A, addr: SocketAddr) -> bool { exists|a: Seq<SocketAddr>| #[trigger] host.stands_for(a) && a.len() > 0 && addr == a[0] }
    /// an exchange opened on a connection of a pool: frames for it are put into the channel of the connection, under its id
    pub open spec fn linked(c: Connection, l0: Seq<Ev>, l: Seq<Ev>, rx: FrameInput, out: FrameOutput) -> bool {
        opened(c, l0, l, seq![]) && rx.chan() == got_chan(l, l0.len()) && rx@ == arrives::<TFrameId>(rx.chan()) && out.message_id == got_id(l, l0.len()) && out.sender == c.sender && out.frames_dispatcher == c.pending_ids
    }
    /// an exchange was opened on a connection handed out by the pool of this address
    pub open spec fn connected(s: ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>, rx: FrameInput, out: FrameOutput) -> bool {
        exists|mid: Seq<Ev>, pool: Arc<Pool<ConnectionManager>>, c: Connection| #[trigger] pool_for(s, addr, l0, mid, Some(pool)) && pool.holds(c) && pooled(pool.manager(), c) && #[trigger] linked(c, mid, l, rx, out)
    }
    /// no exchange was opened: there is no pool, it hands out no connection, or the connection takes no new exchange
    pub open spec fn unconnected(s: ConnectionPools, addr: SocketAddr, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        ||| pool_for(s, addr, l0, l, None)
        ||| exists|pool: Arc<Pool<ConnectionManager>>| #[trigger] pool_for(s, addr, l0, l, Some(pool))
        ||| exists|mid: Seq<Ev>, pool: Arc<Pool<ConnectionManager>>, c: Connection| #[trigger] pool_for(s, addr, l0, mid, Some(pool)) && pool.holds(c) && pooled(pool.manager(), c) && #[trigger] not_opened(c, mid, l)
    }
@@ fn subchannel::first_addr :: props=C15
@ spec
    ensures r is Ok ==> at(addr, r->Ok_0),
@@ fn subchannel::SubChannel::connect :: props=C11,C15,C20 world
@ spec
    ensures match r { Ok((rx, out)) => connected(*self.connection_pools, host, old(vp_w)@, final(vp_w)@, rx, out), Err(_) => unconnected(*self.connection_pools, host, old(vp_w)@, final(vp_w)@) },
@ hint start
    let ghost vp_l0 = vp_w@;
@ hint after get 0
    let ghost vp_m1 = vp_w@; let ghost vp_p = pool;
@ hint after get 1
    let ghost vp_m2 = vp_w@; let ghost vp_k = *connection;
    proof { assert(pool_for(*self.connection_pools, host, vp_l0, vp_m1, Some(vp_p))); assert(vp_m1 == vp_m2); assert(vp_p.holds(vp_k) && pooled(vp_p.manager(), vp_k)); }
@ hint try new_frames_io 0
    proof { if vp_q is Ok { assert(linked(vp_k, vp_m2, vp_w@, (vp_q->Ok_0).0, (vp_q->Ok_0).1)); } else { assert(not_opened(vp_k, vp_m2, vp_w@)); } }
@@ fn subchannel::SubChannel::create_frame_io :: props=C11,C15,C20 world
@ spec
    ensures match r {
        Ok((rx, out)) => exists|addr: SocketAddr| at(host, addr) && #[trigger] connected(*self.connection_pools, addr, old(vp_w)@, final(vp_w)@, rx, out),
        Err(_) => final(vp_w)@ == old(vp_w)@ || exists|addr: SocketAddr| #[trigger] unconnected(*self.connection_pools, addr, old(vp_w)@, final(vp_w)@),
    },
@@ fn subchannel::SubChannel::create_frames :: props=C11
@ spec
    ensures r is Ok ==> request_frames(r->Ok_0@, request.to_args().0, self.service_name@, request.to_args().1), r is Err ==> !str_fits(1, self.service_name@),
@@ module spec
    /// frames under an id
    pub open spec fn tagged(id: u32, fs: Seq<TFrame>) -> Seq<TFrameId> { fs.map_values(|f: TFrame| TFrameId { id, frame: f }) }
    pub open spec fn small(fs: Seq<TFrame>) -> bool { forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).payload@.len() <= 65535 }
@@ fn subchannel::send_frames :: props=C11,C13 world
@ spec
    requires small(frames@)
    ensures sent_all(frames_out.sender.chan(), tagged(frames_out.message_id, frames@), old(vp_w)@, final(vp_w)@, r is Ok),
@ hint preloop 0
    let ghost vp_all = vp_s@; let ghost mut vp_i: int = 0; let ghost vp_l0 = vp_w@; let ghost vp_c = frames_out.sender.chan(); let ghost vp_t = tagged(frames_out.message_id, vp_all);
    proof { assert(vp_l0 + sents(vp_c, vp_t.take(0)) =~= vp_l0); }
@ loop 0
    invariant_except_break 0 <= vp_i <= vp_all.len(), vp_s@ == vp_all.skip(vp_i), vp_r is Ok, vp_w@ =~= vp_l0 + sents(vp_c, vp_t.take(vp_i)),
    invariant small(vp_all), vp_c == frames_out.sender.chan(), vp_t == tagged(frames_out.message_id, vp_all),
    ensures sent_all(vp_c, vp_t, vp_l0, vp_w@, vp_r is Ok),
    decreases vp_all.len() - vp_i
@ hint loopnone 0
    proof { assert(vp_t.take(vp_i) =~= vp_t); }
@ hint loopbreak 0
    proof { assert(sent_all(vp_c, vp_t, vp_l0, vp_w@, false)); }
@ hint loopend 0
    proof { assert(sents(vp_c, vp_t.take(vp_i + 1)) =~= sents(vp_c, vp_t.take(vp_i)).push(Ev::Sent { chan: vp_c, frame: vp_t[vp_i] })); vp_i = vp_i + 1; }
@@ fn errors::<TChannelError as From<RunError>>::from :: props=C11
@@ module errors
    impl vstd::std_specs::convert::FromSpecImpl<RunError<ConnectionError>> for TChannelError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RunError<ConnectionError>) -> Self { TChannelError::ConnectionPoolError(v) } }
@@ module spec
    use crate::channel::TResult;
    /// the answer to a request read from the frames of its exchange
    pub open spec fn answer_read<RES: Message>(fs: Seq<TFrameId>, r: TResult<(ResponseCode, RES)>) -> bool {
        match r {
            Ok((code, m)) => msg_read(res_args(fs), m) && code == (res_read(fs)->0).0.code,
            Err(_) => msg_unreadable::<RES>(res_args(fs)),
        }
    }
    pub open spec fn released(out: FrameOutput, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        let p = found(l, l0.len() as int); l =~= l0.push(reg_ev(*out.frames_dispatcher, p, p.remove(out.message_id)))
    }
    /// a request was sent on an exchange and answered, up to the release of its id
    pub open spec fn exchanged<RES: Message>(fs: Seq<TFrame>, rx: FrameInput, out: FrameOutput, l0: Seq<Ev>, l: Seq<Ev>, r: TResult<(ResponseCode, RES)>) -> bool {
        exists|mid: Seq<Ev>| #[trigger] sent_all(out.sender.chan(), tagged(out.message_id, fs), l0, mid, true) && released(out, mid, l) && answer_read(rx@, r)
    }
    /// a request put into frames and sent on an exchange; an error when it cannot be put into frames, when they cannot
    /// all be sent or when what comes back cannot be read as a response
    pub open spec fn asked<REQ: Message, RES: Message>(service: Seq<char>, request: REQ, rx: FrameInput, out: FrameOutput, l0: Seq<Ev>, l: Seq<Ev>, r: TResult<(ResponseCode, RES)>) -> bool {
        ||| r is Err && !str_fits(1, service) && l == l0
        ||| exists|fs: Seq<TFrame>| #[trigger] request_frames(fs, request.to_args().0, service, request.to_args().1)
            && (r is Err && sent_all(out.sender.chan(), tagged(out.message_id, fs), l0, l, false) || exchanged(fs, rx, out, l0, l, r))
    }
    /// what the caller is told
    pub open spec fn told<RES: Message>(x: TResult<(ResponseCode, RES)>, r: HandlerResult<RES>) -> bool {
        match x {
            Ok((ResponseCode::Ok, m)) => r == Ok::<RES, HandlerError<RES>>(m),
            Ok((ResponseCode::Error, m)) => r == Err::<RES, HandlerError<RES>>(HandlerError::MessageError(m)),
            Err(e) => r == Err::<RES, HandlerError<RES>>(HandlerError::InternalError(e)),
        }
    }
    /// a call from its start to its end
    pub open spec fn called<REQ: Message, RES: Message, A: ToSocketAddrs>(s: SubChannel, request: REQ, host: A, l0: Seq<Ev>, l: Seq<Ev>, r: HandlerResult<RES>) -> bool {
        ||| r is Err && r->Err_0 is InternalError && (l == l0 || exists|addr: SocketAddr| #[trigger] unconnected(*s.connection_pools, addr, l0, l))
        ||| exists|addr: SocketAddr, rx: FrameInput, out: FrameOutput, m1: Seq<Ev>, m2: Seq<Ev>, x: TResult<(ResponseCode, RES)>|
            at(host, addr) && #[trigger] connected(*s.connection_pools, addr, l0, m1, rx, out) && #[trigger] asked(s.service_name@, request, rx, out, m1, m2, x) && released(out, m2, l) && told(x, r)
    }
    pub proof fn lemma_request_small(fs: Seq<TFrame>, scheme: ArgSchemeValue, service: Seq<char>, args: Args)
        requires request_frames(fs, scheme, service, args)
        ensures fs.len() >= 1, small(fs)
    {}
@@ fn subchannel::SubChannel::send_internal :: props=C11,C13,C18,C20 world
@ spec
    ensures asked(self.service_name@, request, frames_in, *frames_out, old(vp_w)@, final(vp_w)@, r),
@ hint start
    let ghost vp_l0 = vp_w@; let ghost vp_a = request.to_args();
@ hint after create_frames 0
    let ghost vp_f = frames@;
    proof { assert(request_frames(vp_f, vp_a.0, self.service_name@, vp_a.1)); lemma_request_small(vp_f, vp_a.0, self.service_name@, vp_a.1); }
@ hint after send_frames 0
    let ghost vp_m = vp_w@;
@ hint tail
    proof { assert(released(*frames_out, vp_m, vp_w@)); assert(exchanged(vp_f, frames_in, *frames_out, vp_l0, vp_w@, vp_tail)); }
@@ fn subchannel::SubChannel::send :: props=C11,C13,C18,C20 world
@ spec
    ensures called(*self, request, host, old(vp_w)@, final(vp_w)@, r),
@ hint start
    broadcast use crate::shim::vp_question;
    let ghost vp_l0 = vp_w@;
@ hint after create_frame_io 0
    let ghost vp_m1 = vp_w@; let ghost vp_rx = frames_in; let ghost vp_addr = choose|addr: SocketAddr| at(host, addr) && #[trigger] connected(*self.connection_pools, addr, vp_l0, vp_m1, frames_in, frames_out);
@ hint after send_internal 0
    let ghost vp_m2 = vp_w@; let ghost vp_x = response_res;
    proof { assert(asked(self.service_name@, request, vp_rx, frames_out, vp_m1, vp_m2, vp_x)); }
@ hint after close 0
    proof { assert(released(frames_out, vp_m2, vp_w@)); assert(connected(*self.connection_pools, vp_addr, vp_l0, vp_m1, vp_rx, frames_out)); }
@@ fn messages::raw::<SubChannel as MessageChannel>::send :: props=C11 world async pinned inherent=vp_send_raw leaf
@ arg ->: HandlerResult<RawMessage>
@ spec
    ensures called(*self, request, host, old(vp_w)@, final(vp_w)@, r),
@@ fn messages::json::<SubChannel as MessageChannel>::send :: props=C11 world async pinned inherent=vp_send_json leaf
@ arg ->: HandlerResult<JsonMessage>
@ spec
    ensures called(*self, request, host, old(vp_w)@, final(vp_w)@, r),
