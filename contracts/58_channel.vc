@# the channel: its subchannels, its server and its pools
@@ use std::sync::Mutex => crate::shim::StdMutex
@@ world abort/0!
@@ module shim
    // ---------- std mutexes: one transaction like the other locks; nothing panics while one is held (every function that locks
    // one is shown not to), so none is ever poisoned
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct StdMutex<T> { _x: T }
    #[verifier::external_body] pub struct PoisonError { _x: u8 }
    impl std::fmt::Debug for PoisonError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
    impl vstd::std_specs::convert::FromSpecImpl<&VStr> for String { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: &VStr) -> Self; }
    impl From<&VStr> for String { #[verifier::external_body] fn from(s: &VStr) -> (r: String) ensures r@ == s@ { unimplemented!() } }
    impl PoisonError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
    impl<T> StdMutex<T> {
        pub uninterp spec fn id(&self) -> int;
        pub uninterp spec fn first(&self) -> T;
        #[verifier::external_body] pub fn new(t: T) -> (r: StdMutex<T>) ensures r.first() == t { unimplemented!() }
    }
    impl<T: VpState> StdMutex<T> {
        #[verifier::external_body] pub fn lock<'a>(&'a self, Tracked(w): Tracked<&mut World>) -> (r: Result<&'a mut T, PoisonError>)
            ensures r is Ok, final(w)@ == old(w)@ + T::txn(self.id(), *r->Ok_0, *final(r->Ok_0)), T::keeps(self.first(), *r->Ok_0) { unimplemented!() }
    }
@@ item channel::ServerHandle
@@ item channel::TChannel
@@ module spec
    use crate::channel::*;
    pub open spec fn task_of<T>(h: Option<JoinHandle<T>>) -> Option<int> { match h { Some(x) => Some(x.task()), None => None } }
    impl<T> VpState for Option<JoinHandle<T>> {
        open spec fn txn(lock: int, pre: Self, post: Self) -> Seq<Ev> { seq![Ev::Handle { lock, opre: task_of(pre), opost: task_of(post) }] }
        open spec fn keeps(first: Self, now: Self) -> bool { true }
    }
    pub open spec fn handle_ev(s: TChannel, p: Option<int>, q: Option<int>) -> Ev { Ev::Handle { lock: s.server_handle.id(), opre: p, opost: q } }
    /// starting the server: refused when there is one, which stays
    pub open spec fn started(s: TChannel, l0: Seq<Ev>, l: Seq<Ev>, ok: bool) -> bool {
        let n = l0.len() as int; let p = l[n]->opre; let q = l[n]->opost;
        if p is Some { !ok && l =~= l0 + seq![handle_ev(s, p, p)] }
        else { ok && q is Some && l =~= l0 + seq![handle_ev(s, p, q), Ev::Start { task: q->0, cfg: s.config, subs: s.subchannels.id() }] }
    }
    /// stopping the server, if there is one; there is none afterwards
    pub open spec fn stopped(s: TChannel, l0: Seq<Ev>, l: Seq<Ev>) -> bool {
        let n = l0.len() as int; let p = l[n]->opre;
        if p is Some { l =~= l0 + seq![handle_ev(s, p, None), Ev::Abort { task: p->0 }] } else { l =~= l0 + seq![handle_ev(s, p, p)] }
    }
    /// the subchannel of a name looked up, and made when there was none
    pub open spec fn subchannel_got(s: TChannel, name: Seq<char>, l0: Seq<Ev>, l: Seq<Ev>, r: Arc<SubChannel>) -> bool {
        let n = l0.len() as int; let p = l[n]->spre; let id = s.subchannels.id();
        if p.contains_key(name) { r == p[name] && l =~= l0 + seq![subs_ev(id, p, p)] }
        else { l =~= l0 + seq![subs_ev(id, p, p.insert(name, r))] && r.service_name@ == name && r.connection_pools == s.connection_pools && r.handlers.first()@ == Map::<Seq<char>, HandlerRef>::empty() }
    }
@@ module server
    impl Server {
        /// starting the server as a task; what the task does is in the contract of `run`
        #[verifier::external_body] pub fn vp_spawned_run(config: Arc<Config>, subchannels: SharedSubChannels, Tracked(w): Tracked<&mut crate::shim::World>) -> (r: crate::shim::JoinHandle<ConnectionResult<()>>)
            ensures final(w)@ == old(w)@.push(Ev::Start { task: r.task(), cfg: config, subs: subchannels.id() }) { unimplemented!() }
    }
@@ fn channel::TChannel::new :: props=C15,C16,C20
@ spec
    ensures r is Ok, *r->Ok_0.config == config, *r->Ok_0.connection_pools.config == config, r->Ok_0.connection_pools.pools.first()@ == crate::spec::PoolMap::empty(),
        r->Ok_0.subchannels.first()@ == crate::spec::SubMap::empty(), r->Ok_0.server_handle.first() is None,
@@ fn channel::TChannel::start_server :: props=C16 world tasks
@ spec
    ensures started(*self, old(vp_w)@, final(vp_w)@, r is Ok),
@@ fn channel::TChannel::shutdown_server :: props=C16 world
@ spec
    ensures r is Ok, stopped(*self, old(vp_w)@, final(vp_w)@),
@@ fn channel::<TChannel as Drop>::drop :: props=C16 world inherent=vp_drop
@ spec
    ensures stopped(*old(self), old(vp_w)@, final(vp_w)@),
@@ fn channel::TChannel::subchannel :: props=C15,C20 world
@ spec
    ensures r is Ok, ({ let l0 = old(vp_w)@; let l = final(vp_w)@; let p = l[l0.len() as int]->spre;
        if p.contains_key(service_name.sv()) { subchannel_got(*self, service_name.sv(), l0, l, r->Ok_0) }
        else { subchannel_got(*self, service_name.sv(), l0.push(subs_ev(self.subchannels.id(), p, p)), l, r->Ok_0) } }),
@@ fn channel::TChannel::create_subchannel :: props=C15,C20 world
@ spec
    ensures r is Ok, subchannel_got(*self, service_name.sv(), old(vp_w)@, final(vp_w)@, r->Ok_0),
