@@ use std::pin::Pin => crate::shim::Pin
@@ item errors::HandlerError
@@ item handler::HandlerResult
@@ item messages::args::MessageArgsResponse
@@ item handler::RequestHandler
@@ item handler::RequestHandlerAsync
@@ item handler::MessageArgsHandler
@@ item handler::RequestHandlerAdapter #[verifier::reject_recursive_types(REQ)] #[verifier::reject_recursive_types(RES)] #[verifier::reject_recursive_types(HANDLER)]
@@ item handler::RequestHandlerAsyncAdapter #[verifier::reject_recursive_types(REQ)] #[verifier::reject_recursive_types(RES)] #[verifier::reject_recursive_types(HANDLER)]
@@ module shim
    pub use std::pin::Pin;
    /// the state of a handler, as far as anyone else can tell
    #[verifier::external_body] pub struct HState { _x: u8 }
@@ module errors
    impl<RES: Message> vstd::std_specs::convert::FromSpecImpl<TChannelError> for HandlerError<RES> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: TChannelError) -> Self { HandlerError::InternalError(v) } }
@@ fn errors::<HandlerError as From<TChannelError>>::from :: props=C11
@@ impl handler::RequestHandler
    /// the state of the handler and what it may do with a request: any result, any state afterwards
    spec fn hstate(&self) -> crate::shim::HState;
    spec fn hrel(&self, request: Self::REQ, result: HandlerResult<Self::RES>, post: crate::shim::HState) -> bool;
@@ fn handler::RequestHandler::handle
@ spec
    ensures old(self).hrel(request, r, final(self).hstate()),
@@ impl handler::RequestHandlerAsync
    spec fn hstate(&self) -> crate::shim::HState;
    spec fn hrel(&self, request: Self::REQ, result: HandlerResult<Self::RES>, post: crate::shim::HState) -> bool;
@@ fn handler::RequestHandlerAsync::handle :: sync
@ arg ->: HandlerResult<Self::RES>
@ spec
    ensures old(self).hrel(request, r, final(self).hstate()),
@@ impl handler::MessageArgsHandler
    spec fn mstate(&self) -> crate::shim::HState;
    spec fn mrel(&self, scheme: ArgSchemeValue, args: Args, result: MessageArgsResponse, post: crate::shim::HState) -> bool;
@@ fn handler::MessageArgsHandler::handle :: sync
@ arg ->: MessageArgsResponse
@ spec
    ensures old(self).mrel(request.arg_scheme, bytes_list(request.args@), r, final(self).mstate()), r is Ok ==> args_usable(r->Ok_0.1),
@@ module handler
    use crate::shim::HState;
    use crate::frames::headers::ArgSchemeValue;
@@ module spec
    use crate::handler::*;
    use crate::errors::*;
    /// the outcome of a handler as response code and arguments, or as an error
    pub open spec fn converted<MSG: Message>(h: HandlerResult<MSG>, r: MessageArgsResponse) -> bool {
        match h {
            Ok(m) => r is Ok && r->Ok_0.0 == ResponseCode::Ok && (r->Ok_0.1.arg_scheme, bytes_list(r->Ok_0.1.args@)) == m.to_args() && args_usable(r->Ok_0.1),
            Err(HandlerError::MessageError(m)) => r is Ok && r->Ok_0.0 == ResponseCode::Error && (r->Ok_0.1.arg_scheme, bytes_list(r->Ok_0.1.args@)) == m.to_args() && args_usable(r->Ok_0.1),
            Err(HandlerError::GeneralError(s)) => r == Err::<(ResponseCode, MessageArgs), TChannelError>(TChannelError::Error(s)),
            Err(HandlerError::InternalError(e)) => r == Err::<(ResponseCode, MessageArgs), TChannelError>(e),
        }
    }
    pub open spec fn args_usable(a: MessageArgs) -> bool { !(a.arg_scheme is Custom) && 1 <= a.args@.len() <= 3 }
    /// a request given to a handler through its adapter: it reached the handler as this message and came back with
    /// the handler's outcome, or it is no message of the handler's type and never reached it
    pub open spec fn handled<H: RequestHandler>(h: H, scheme: ArgSchemeValue, args: Args, r: MessageArgsResponse, post: HState) -> bool {
        ||| H::REQ::bad_args(scheme, args) && r is Err && post == h.hstate()
        ||| exists|q: H::REQ, o: HandlerResult<H::RES>| H::REQ::from_args(scheme, args, q) && #[trigger] h.hrel(q, o, post) && converted(o, r)
    }
    pub open spec fn handled_async<H: RequestHandlerAsync>(h: H, scheme: ArgSchemeValue, args: Args, r: MessageArgsResponse, post: HState) -> bool {
        ||| H::REQ::bad_args(scheme, args) && r is Err && post == h.hstate()
        ||| exists|q: H::REQ, o: HandlerResult<H::RES>| H::REQ::from_args(scheme, args, q) && #[trigger] h.hrel(q, o, post) && converted(o, r)
    }
@@ fn handler::convert :: props=C11
@ spec
    ensures converted(msg_res, r),
@@ fn handler::RequestHandlerAdapter::new :: props=C11 auto
@@ fn handler::RequestHandlerAsyncAdapter::new :: props=C11 auto
@@ fn handler::RequestHandlerAdapter::handle :: props=C11
@ spec
    ensures handled(old(self).0, request_args.arg_scheme, bytes_list(request_args.args@), r, final(self).0.hstate()),
@@ impl handler::<RequestHandlerAdapter as MessageArgsHandler>
    open spec fn mstate(&self) -> HState { self.0.hstate() }
    open spec fn mrel(&self, scheme: ArgSchemeValue, args: Args, result: MessageArgsResponse, post: HState) -> bool { handled(self.0, scheme, args, result, post) }
@@ fn handler::<RequestHandlerAdapter as MessageArgsHandler>::handle :: props=C11 sync
@ arg ->: MessageArgsResponse
@@ impl handler::<RequestHandlerAsyncAdapter as MessageArgsHandler>
    open spec fn mstate(&self) -> HState { self.0.hstate() }
    open spec fn mrel(&self, scheme: ArgSchemeValue, args: Args, result: MessageArgsResponse, post: HState) -> bool { handled_async(self.0, scheme, args, result, post) }
@@ fn handler::<RequestHandlerAsyncAdapter as MessageArgsHandler>::handle :: props=C11 sync noawait=handle
@ arg ->: MessageArgsResponse
