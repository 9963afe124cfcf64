@# the handlers of a subchannel and the handling of requests
@@ item subchannel::HandlerRef
@@ item subchannel::SubChannel
@@ module subchannel
    use crate::frames::headers::ArgSchemeValue;
    use crate::shim::HState;
@@ module shim
    impl KeyView for VStr { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
@@ module spec
    pub type HandlerMap = Map<Seq<char>, HandlerRef>;
    pub type SubMap = Map<Seq<char>, Arc<SubChannel>>;
    impl VpState for HashMap<String, HandlerRef> {
        open spec fn txn(lock: int, pre: Self, post: Self) -> Seq<Ev> { seq![Ev::Handlers { lock, kpre: pre@, kpost: post@ }] }
        open spec fn keeps(first: Self, now: Self) -> bool { true }
    }
    impl VpState for HashMap<String, Arc<SubChannel>> {
        open spec fn txn(lock: int, pre: Self, post: Self) -> Seq<Ev> { seq![Ev::Subs { lock, spre: pre@, spost: post@ }] }
        open spec fn keeps(first: Self, now: Self) -> bool { true }
    }
    impl VpState for Box<dyn MessageArgsHandler> {
        open spec fn txn(lock: int, pre: Self, post: Self) -> Seq<Ev> { seq![Ev::Used { hlock: lock, hpre: pre, hpost: post }] }
        open spec fn keeps(first: Self, now: Self) -> bool { true }
    }
    pub open spec fn handlers_ev(s: SubChannel, p: HandlerMap, q: HandlerMap) -> Ev { Ev::Handlers { lock: s.handlers.id(), kpre: p, kpost: q } }
    /// a handler put under a name, unless there is one
    pub open spec fn handler_added(s: SubChannel, name: Seq<char>, h: HandlerRef, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        let p = l[l0.len() as int]->kpre;
        ok == !p.contains_key(name) && l =~= l0 + seq![handlers_ev(s, p, if ok { p.insert(name, h) } else { p })]
    }
    pub open spec fn handler_removed(s: SubChannel, name: Seq<char>, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        let p = l[l0.len() as int]->kpre;
        ok == p.contains_key(name) && l =~= l0 + seq![handlers_ev(s, p, p.remove(name))]
    }
    /// the endpoint a request is for
    pub open spec fn endpoint_of(args: Args) -> Option<Seq<char>> { if args.len() > 0 && valid_utf8(args[0]) { Some(decode_utf8(args[0])) } else { None } }
    /// a request was given to the handler of its endpoint, or to none
    pub open spec fn routed(s: SubChannel, scheme: ArgSchemeValue, args: Args, l0: Seq<Ev>, l: Seq<Ev>, r: MessageArgsResponse) -> bool {
        let n = l0.len() as int; let p = l[n]->kpre;
        match endpoint_of(args) {
            None => r is Err && l == l0,
            Some(e) => if !p.contains_key(e) { r is Err && l =~= l0 + seq![handlers_ev(s, p, p)] }
                else { l =~= l0 + seq![handlers_ev(s, p, p), Ev::Used { hlock: p[e].id(), hpre: l[n + 1]->hpre, hpost: l[n + 1]->hpost }]
                    && l[n + 1]->hpre.mrel(scheme, args, r, l[n + 1]->hpost.mstate()) },
        }
    }
@@ fn subchannel::SubChannel::new :: props=C15
@ spec
    ensures r.service_name == service_name, r.connection_pools == connection_pools, r.handlers.first()@ == Map::<Seq<char>, HandlerRef>::empty(),
@@ fn subchannel::SubChannel::register_handler :: props=C15 world
@ spec
    ensures handler_added(*self, endpoint.sv(), request_handler, old(vp_w)@, final(vp_w)@, r is Ok),
@@ fn subchannel::SubChannel::unregister :: props=C15 world
@ spec
    ensures handler_removed(*old(self), endpoint.sv(), old(vp_w)@, final(vp_w)@, r is Ok), *final(self) == *old(self),
@@ fn subchannel::SubChannel::get_handler :: props=C15 world
@ spec
    ensures ({ let p = final(vp_w)@[old(vp_w)@.len() as int]->kpre; final(vp_w)@ =~= old(vp_w)@ + seq![handlers_ev(*self, p, p)]
        && match r { Ok(h) => p.contains_key(endpoint@) && h == p[endpoint@], Err(_) => !p.contains_key(endpoint@) } }),
@@ fn subchannel::SubChannel::read_endpoint_name :: props=C11,C15
@ spec
    ensures match r { Ok(s) => endpoint_of(bytes_list(request.args@)) == Some(s@), Err(_) => endpoint_of(bytes_list(request.args@)) is None },
@@ fn subchannel::SubChannel::handle :: props=C11,C15,C17 world noawait=handle
@ spec
    requires exists|s: int| old(vp_w).held().contains(s)
    ensures routed(*self, request.arg_scheme, bytes_list(request.args@), old(vp_w)@, final(vp_w)@, r), r is Ok ==> args_usable(r->Ok_0.1),
@@ fn subchannel::SubChannel::register :: props=C11,C15 world
@ spec
    ensures exists|h: HandlerRef| #[trigger] handler_added(*self, endpoint.sv(), h, old(vp_w)@, final(vp_w)@, r is Ok)
        && forall|s: ArgSchemeValue, a: Args, x: MessageArgsResponse, q: HState| #[trigger] h.first().mrel(s, a, x, q) == handled(request_handler, s, a, x, q),
@@ fn subchannel::SubChannel::register_async :: props=C11,C15 world
@ spec
    ensures exists|h: HandlerRef| #[trigger] handler_added(*self, endpoint.sv(), h, old(vp_w)@, final(vp_w)@, r is Ok)
        && forall|s: ArgSchemeValue, a: Args, x: MessageArgsResponse, q: HState| #[trigger] h.first().mrel(s, a, x, q) == handled_async(request_handler, s, a, x, q),
