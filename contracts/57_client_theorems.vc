@@ module spec
    // ---------- C11: from the handler to the caller
    /// the frames that answer a request, as the caller reads them; None when the request failed and was answered by an error frame
    pub open spec fn replied(id: u32, service: Seq<char>, x: MessageArgsResponse, out: Seq<TFrameId>) -> bool {
        match x { Ok(_) => reply(id, service, x, Some(out)), Err(_) => out.len() == 1 && errs(out[0], id) }
    }
    /// what the caller is told of an outcome whose message m is of the type of the caller's response
    pub open spec fn heard<M: Message, RES: Message>(m: M, n: RES) -> bool { RES::from_args(m.to_args().0, m.to_args().1, n) && same_scheme(m.to_args().0, RES::mscheme()) }
    pub open spec fn unheard<M: Message, RES: Message>(m: M) -> bool { RES::bad_args(m.to_args().0, m.to_args().1) || !same_scheme(m.to_args().0, RES::mscheme()) }
    pub proof fn lemma_c11_reply<RES: Message>(id: u32, service: Seq<char>, x: MessageArgsResponse, out: Seq<TFrameId>, y: TResult<(ResponseCode, RES)>)
        requires replied(id, service, x, out), answer_read(out, y), x is Ok ==> args_usable(x->Ok_0.1)
        ensures match x {
            Ok((code, a)) => match y { Ok((c, n)) => c == code && same_scheme(a.arg_scheme, RES::mscheme()) && RES::from_args(a.arg_scheme, bytes_list(a.args@), n),
                Err(_) => !same_scheme(a.arg_scheme, RES::mscheme()) || RES::bad_args(a.arg_scheme, bytes_list(a.args@)) },
            Err(_) => y is Err,
        }
    {
        if let Ok((code, a)) = x {
            assert(with_ids(bare(out), out));
            theorem_c06_response(bare(out), out, code, a.arg_scheme, service, bytes_list(a.args@));
        } else { assert(out[0].frame.frame_type == Type::Error); assert(res_read(out) is None); }
    }
    /// C11: what a handler made of a request reaches the caller as what it was: a response as a success, an error message as
    /// an error message, every other failure as an error
    pub proof fn theorem_c11_outcome<M: Message, RES: Message>(o: HandlerResult<M>, x: MessageArgsResponse, id: u32, service: Seq<char>, out: Seq<TFrameId>, y: TResult<(ResponseCode, RES)>, r: HandlerResult<RES>)
        requires converted(o, x), replied(id, service, x, out), answer_read(out, y), told(y, r)
        ensures match o {
            Ok(m) => match r { Ok(n) => heard::<M, RES>(m, n), Err(HandlerError::InternalError(_)) => unheard::<M, RES>(m), _ => false },
            Err(HandlerError::MessageError(m)) => match r { Err(HandlerError::MessageError(n)) => heard::<M, RES>(m, n), Err(HandlerError::InternalError(_)) => unheard::<M, RES>(m), _ => false },
            Err(_) => r is Err && r->Err_0 is InternalError,
        }
    { lemma_c11_reply::<RES>(id, service, x, out, y); }
    /// C11: between messages of the same type nothing is lost
    pub proof fn theorem_c11_raw(o: HandlerResult<RawMessage>, x: MessageArgsResponse, id: u32, service: Seq<char>, out: Seq<TFrameId>, y: TResult<(ResponseCode, RawMessage)>, r: HandlerResult<RawMessage>)
        requires converted(o, x), replied(id, service, x, out), answer_read(out, y), told(y, r)
        ensures match o {
            Ok(m) => r is Ok && r->Ok_0.endpoint@ == m.endpoint@ && r->Ok_0.header@ == m.header@ && r->Ok_0.body@ == m.body@,
            Err(HandlerError::MessageError(m)) => r is Err && r->Err_0 is MessageError && r->Err_0->MessageError_0.endpoint@ == m.endpoint@ && r->Err_0->MessageError_0.header@ == m.header@ && r->Err_0->MessageError_0.body@ == m.body@,
            Err(_) => r is Err && r->Err_0 is InternalError,
        }
    {
        theorem_c11_outcome::<RawMessage, RawMessage>(o, x, id, service, out, y, r);
        match (o, r) {
            (Ok(m), Ok(n)) => theorem_c10_raw(m, n), (Ok(m), _) => theorem_c10_raw(m, m),
            (Err(HandlerError::MessageError(m)), Err(HandlerError::MessageError(n))) => theorem_c10_raw(m, n), (Err(HandlerError::MessageError(m)), _) => theorem_c10_raw(m, m),
            _ => {}
        }
    }
    pub proof fn theorem_c11_json(o: HandlerResult<JsonMessage>, x: MessageArgsResponse, id: u32, service: Seq<char>, out: Seq<TFrameId>, y: TResult<(ResponseCode, JsonMessage)>, r: HandlerResult<JsonMessage>)
        requires converted(o, x), replied(id, service, x, out), answer_read(out, y), told(y, r),
            forall|j: JObj| json_of(encode_utf8(#[trigger] json_text(j))) == Some(j)
        ensures match o {
            Ok(m) => r is Ok && r->Ok_0.method_name@ == m.method_name@ && r->Ok_0.headers@ == m.headers@ && r->Ok_0.body@ == m.body@,
            Err(HandlerError::MessageError(m)) => r is Err && r->Err_0 is MessageError && r->Err_0->MessageError_0.method_name@ == m.method_name@ && r->Err_0->MessageError_0.headers@ == m.headers@ && r->Err_0->MessageError_0.body@ == m.body@,
            Err(_) => r is Err && r->Err_0 is InternalError,
        }
    {
        theorem_c11_outcome::<JsonMessage, JsonMessage>(o, x, id, service, out, y, r);
        match (o, r) {
            (Ok(m), Ok(n)) => theorem_c10_json(m, n), (Ok(m), _) => theorem_c10_json(m, m),
            (Err(HandlerError::MessageError(m)), Err(HandlerError::MessageError(n))) => theorem_c10_json(m, n), (Err(HandlerError::MessageError(m)), _) => theorem_c10_json(m, m),
            _ => {}
        }
    }
    /// C11: a request that is no message of the handler's type never reaches it: the handler is as it was and the request fails
    pub proof fn theorem_c11_unconverted<H: RequestHandler>(h: H, scheme: ArgSchemeValue, args: Args, r: MessageArgsResponse, post: HState)
        requires handled(h, scheme, args, r, post), forall|q: H::REQ| !#[trigger] H::REQ::from_args(scheme, args, q)
        ensures r is Err, post == h.hstate()
    {}
    pub proof fn theorem_c11_unconverted_async<H: RequestHandlerAsync>(h: H, scheme: ArgSchemeValue, args: Args, r: MessageArgsResponse, post: HState)
        requires handled_async(h, scheme, args, r, post), forall|q: H::REQ| !#[trigger] H::REQ::from_args(scheme, args, q)
        ensures r is Err, post == h.hstate()
    {}
    /// C11: a request sent as it is put into frames reaches the handler of its endpoint as the message it was
    pub proof fn theorem_c11_request<REQ: Message>(q: REQ, service: Seq<char>, fs: Seq<TFrame>, ids: Seq<TFrameId>)
        requires request_frames(fs, q.to_args().0, service, q.to_args().1), with_ids(fs, ids), !(q.to_args().0 is Custom)
        ensures req_read(ids) is Some, (req_read(ids)->0).0.service == service, (req_read(ids)->0).1 == q.to_args().0, (req_read(ids)->0).2 == q.to_args().1
    { theorem_c06_request(fs, ids, q.to_args().0, service, q.to_args().1); }
    /// C11, C18: a call tells its caller a success only when a whole response with the code of a success arrived
    pub proof fn theorem_c11_success<REQ: Message, RES: Message, A: ToSocketAddrs>(s: SubChannel, q: REQ, host: A, l0: Seq<Ev>, l: Seq<Ev>, r: HandlerResult<RES>)
        requires called(s, q, host, l0, l, r), r is Ok || r->Err_0 is MessageError
        ensures exists|rx: FrameInput| (#[trigger] res_read(rx@)) is Some && (res_read(rx@)->0).0.code == (if r is Ok { ResponseCode::Ok } else { ResponseCode::Error })
            && RES::from_args((res_read(rx@)->0).1, (res_read(rx@)->0).2, if r is Ok { r->Ok_0 } else { r->Err_0->MessageError_0 })
    {
        let (addr, rx, out, m1, m2, x) = choose|addr: SocketAddr, rx: FrameInput, out: FrameOutput, m1: Seq<Ev>, m2: Seq<Ev>, x: TResult<(ResponseCode, RES)>|
            at(host, addr) && #[trigger] connected(*s.connection_pools, addr, l0, m1, rx, out) && #[trigger] asked(s.service_name@, q, rx, out, m1, m2, x) && released(out, m2, l) && told(x, r);
        assert(x is Ok);
        assert(answer_read(rx@, x));
        assert(res_read(rx@) is Some);
    }
    /// C11, C13: the frames of a call are those of its request, under the id of its exchange, and the id is released at its end
    pub proof fn theorem_c11_sent<REQ: Message, RES: Message>(s: SubChannel, q: REQ, rx: FrameInput, out: FrameOutput, l0: Seq<Ev>, l: Seq<Ev>, x: TResult<(ResponseCode, RES)>)
        requires asked(s.service_name@, q, rx, out, l0, l, x), x is Ok
        ensures exists|fs: Seq<TFrame>, mid: Seq<Ev>| request_frames(fs, q.to_args().0, s.service_name@, q.to_args().1) && #[trigger] sent_all(out.sender.chan(), tagged(out.message_id, fs), l0, mid, true) && released(out, mid, l)
    {
        let fs = choose|fs: Seq<TFrame>| #[trigger] request_frames(fs, q.to_args().0, s.service_name@, q.to_args().1) && exchanged(fs, rx, out, l0, l, x);
        let mid = choose|mid: Seq<Ev>| #[trigger] sent_all(out.sender.chan(), tagged(out.message_id, fs), l0, mid, true) && released(out, mid, l) && answer_read(rx@, x);
        assert(sent_all(out.sender.chan(), tagged(out.message_id, fs), l0, mid, true));
    }
