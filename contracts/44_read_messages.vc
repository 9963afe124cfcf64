@@ module spec
    /// what a message of a type read from these frames is; None when they cannot be read as one
    pub open spec fn msg_read<MSG: Message>(x: Option<(ArgSchemeValue, Args)>, m: MSG) -> bool {
        match x { Some((s, a)) => same_scheme(s, MSG::mscheme()) && MSG::from_args(s, a, m), None => false }
    }
    pub open spec fn msg_unreadable<MSG: Message>(x: Option<(ArgSchemeValue, Args)>) -> bool {
        match x { Some((s, a)) => !same_scheme(s, MSG::mscheme()) || MSG::bad_args(s, a), None => true }
    }
    pub open spec fn req_args(fs: Seq<TFrameId>) -> Option<(ArgSchemeValue, Args)> { match req_read(fs) { Some((_, s, a)) => Some((s, a)), None => None } }
    pub open spec fn res_args(fs: Seq<TFrameId>) -> Option<(ArgSchemeValue, Args)> { match res_read(fs) { Some((_, s, a)) => Some((s, a)), None => None } }
@@ fn defragmentation::ResponseDefragmenter::read_response_msg :: props=C08,C09,C11
@ spec
    ensures match r {
        Ok((code, m)) => msg_read(res_args(self.defragmenter.frame_input@), m) && code == (res_read(self.defragmenter.frame_input@)->0).0.code,
        Err(_) => msg_unreadable::<MSG>(res_args(self.defragmenter.frame_input@)),
    },
@ closure 0
    |fields: &CallResponseFields| -> (r: CodecResult<ArgSchemeValue>) ensures match scheme_decl(strmap(fields.headers@)) { Some(s) => if same_scheme(s, MSG::mscheme()) { r is Ok && r->Ok_0 == s } else { r is Err }, None => r is Err }
@@ fn defragmentation::RequestDefragmenter::read_request_msg :: props=C08,C09,C11,C17
@ spec
    ensures match r {
        Ok(m) => msg_read(req_args(self.defragmenter.frame_input@), m),
        Err(_) => msg_unreadable::<MSG>(req_args(self.defragmenter.frame_input@)),
    },
@ closure 0
    |fields: &CallRequestFields| -> (r: CodecResult<ArgSchemeValue>) ensures match scheme_decl(strmap(fields.headers@)) { Some(s) => if same_scheme(s, MSG::mscheme()) { r is Ok && r->Ok_0 == s } else { r is Err }, None => r is Err }
