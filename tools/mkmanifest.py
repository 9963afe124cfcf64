#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED maps each claimed property to its note."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification (Verus) of functions extracted from /repo on every run, with counterexample search on the real code"
CLAIMED = {
 "C01": "Contracts of the frame encoder and decoder, for all frames and all buffers; theorem_c01_* compose them into the round trip. Trusted: contracts of BytesMut and num_traits' derive.",
 "C02": "Contract of the frame decoder for every buffer content; theorem_c02_* shows by induction that any cutting of the stream yields the same frames. Trusted: contracts of BytesMut.",
 "C03": "Every decoder (frame and all payload types) verified against a total parse function for every payload of up to 65535 bytes, with all panics, slice bounds and arithmetic as obligations. The length bound is what the frame decoder yields. Trusted: contracts of bytes::Bytes, String::from_utf8, HashMap.",
 "C04": "Every encoder verified: Ok exactly when the value fits its length fields and then the bytes are the layout; theorem_c04_* say that each length or count field of the layout equals what follows. Trusted: contracts of BytesMut, HashMap iteration, TryFrom<usize>.",
 "C05": "Encoders and decoders of all message types verified against layout and parse functions; theorem_c05_* compose them into the round trips, for all values. Trusted: contracts of bytes, HashMap, UTF-8 functions of vstd.",
 "C06": "Fragmenter and defragmenter verified against one fold over argument chunks, for all argument sizes and any number of frames; theorem_c06_* compose them: the frames of a request or response read back as the same fields, scheme and arguments. Trusted: contracts of bytes, VecDeque, mpsc::Receiver (a sequence of messages), scheduling of async.",
 "C07": "RequestFragmenter and ResponseFragmenter verified to produce well formed fragment streams (types, flags, sizes, chunk counts, fields) for every service name and 1 to 3 arguments, and to succeed when the service name fits; theorem_c07_stream restates the shape per frame. Trusted: contracts of bytes, HashMap, strum's Display.",
 "C08": "read_beginning, read_continuation, read_and_check verified: Ok exactly when the frames received start with a complete fragment sequence; theorem_c08_* show prefixes are refused, later frames are not consumed, bad frames fail. Trusted: contract of mpsc::Receiver (a sequence of messages), bytes.",
 "C09": "create_headers, get_args_scheme, ArgSchemeChecker and the name functions verified; theorem_c09_schemes: names and values correspond one to one and what is declared is what is read. Trusted: contracts of HashMap and strings.",
 "C10": "TryFrom/TryInto of RawMessage and JsonMessage verified in both directions for every message and argument list; theorem_c10_* compose them into the round trip and the refusals. Trusted: contracts of bytes, UTF-8 functions of vstd, serde_json (that a text written parses back to the map: false for some floating point numbers, listed as a known finding).",
 "C12": "All functions of FramesDispatcher, FrameReceiver::run, FrameOutput::close, Connection::new_frames_io and send_one verified against logs of their atomic actions, for every state another task may leave between two of them; theorem_c12_* lift them to every history of operations: who gets which frame, what a failing registration or a removal changes. Trusted: contracts of tokio locks (linearizable transactions), channels (fresh, a sequence of messages), FramedRead (finite), sequentially consistent atomics.",
 "C13": "Connection::new_frames_io/send_many/send_one, FrameOutput, the id counter, FramesDispatcher and the server's FrameHandler::{handle, handle_input, to_error_frame, send_frames} verified against logs of their atomic actions; theorem_c13_*: an exchange gets an id no pending one has, ids come from a counter, what is written is what was passed in order; theorem_c17_alone: all frames of an answer carry the id of its request. Trusted: contracts of tokio's channels, locks, atomics and FramedWrite; message ids wrap after 2^32 (a wrapped id in use is refused).",
 "C14": "Both sides of the handshake (pool::init_handshake, verify, ConnectionManager::connect, Connection::connect, Server::check_init_req, send_init_res, handle_init_handshake, handle_connection, run) verified for everything that can come from a socket; theorem_c14_*. Trusted: contracts of TcpStream/TcpListener, FramedRead/FramedWrite, bb8 (hands out what its manager connected). Combinator chains over streams are verified one item at a time.",
 "C17": "The server's path of a request (dispatch_frame, FrameHandler::handle, handle_input, get_subchannel, to_error_frame, send_frames, SubChannel::handle, handle_connection) verified for every frame sequence, registry state and handler outcome; theorem_c17_*: a failed request is answered by one error frame with its id, its id alone is released, and the connection goes on. Requests are verified one after the other, interleavings only at the level of the logged atomic actions.",
 "C18": "FrameReceiver::run (closes the dispatcher after the last frame or the first bad one), FramesDispatcher::close/register, Connection::new_frames_io and send_one verified against logs of their atomic actions; theorem_c18_*: once closed nothing is pending, every later exchange is refused, an exchange that got no answer is an error. That a pending channel ends when its sender is dropped is tokio's contract; waking up is liveness and only tested. Trusted: contracts of tokio locks, channels, FramedRead.",
 "C11": "The whole path of a call on both sides: SubChannel::{send, send_internal, create_frames, create_frame_io, connect}, send_frames, the adapters of the handlers, convert, and the functions of C06/C09/C10 they rest on, verified for every message, handler outcome and answer; theorem_c11_* compose them: what the handler returned is what the caller is told, between equal message types without loss. Trusted: contracts of tokio, bb8, serde_json as in C10, `?` converting errors with From::from.",
 "C15": "register_handler, unregister, get_handler, handle, TChannel::{subchannel, create_subchannel}, FrameHandler::get_subchannel, ConnectionPools::{get, create_pool} verified as transactions on the registry they lock, for every state another task may leave between two of them; theorem_c15_* lift them to every history of transactions. Trusted: contracts of tokio's RwLock (linearizable transactions), HashMap.",
 "C16": "TChannel::{new, start_server, shutdown_server, drop} verified as transactions on the remembered server; theorem_c16_*: in every history of transactions the tasks started and not stopped are at most the one remembered. Trusted: contracts of std's Mutex (not poisoned), JoinHandle::abort (the task stops), tokio::spawn.",
 "C20": "ConnectionPools::{new, get, create_pool}, ConnectionManager::connect, TChannel::new, SubChannel::{connect, create_frame_io, send_internal, send} verified; theorem_c20_*: each address has one pool, limited as configured, a call uses a connection of it and opens none. That bb8 keeps to the limits it is configured with is its contract, trusted (and sampled by the concrete search).",
 "C21": "request_permits, Server::{new, run, handle_connection}, FrameHandler::{new, handle, handle_input}, get_subchannel verified with the permits the handling of a request holds as ghost state: a connection has the configured number of permits, handlers are called only while one of them is held, none is held while frames of a request are awaited; theorem_c21_limit: no more requests are handled than tasks are configured. Trusted: the contract of tokio's Semaphore, and that a permit goes with its variable (the extractor marks where). That waiting requests are then handled is liveness and only searched.",
}
THEOREMS = {
 "C21": ["theorem_c21_limit"],
 "C11": ["theorem_c11_outcome", "theorem_c11_raw", "theorem_c11_json", "theorem_c11_unconverted", "theorem_c11_unconverted_async", "theorem_c11_request", "theorem_c11_success", "theorem_c11_sent"],
 "C15": ["theorem_c15_register", "theorem_c15_unregister", "theorem_c15_routing", "theorem_c15_service", "theorem_c15_handlers", "theorem_c15_subchannel", "theorem_c15_subchannels", "theorem_c15_pool", "theorem_c15_pools", "theorem_c15_address"],
 "C16": ["theorem_c16_transactions", "theorem_c16_one", "theorem_c16_restart"],
 "C20": ["theorem_c20_limits", "theorem_c20_pool", "theorem_c20_call", "theorem_c20_dial"],
 "C13": ["theorem_c13_distinct", "theorem_c13_refused", "theorem_c13_counter", "theorem_c13_written", "theorem_c17_alone"],
 "C14": ["theorem_c14_server_refuses", "theorem_c14_server_answers", "theorem_c14_client", "theorem_c14_pooled", "theorem_c14_compatible"],
 "C17": ["theorem_c17_failures", "theorem_c17_alone", "theorem_c17_error_frame", "theorem_c17_goes_on"],
 "C12": ["theorem_c12_operations", "theorem_c12_delivery", "theorem_c12_start", "theorem_c12_history", "theorem_c12_no_sharing", "theorem_c12_exclusive"],
 "C18": ["theorem_c18_closed", "theorem_c18_ends"],
 "C06": ["theorem_c06_request", "theorem_c06_response"],
 "C07": ["theorem_c07_stream"],
 "C08": ["theorem_c08_fold", "theorem_c08_complete", "theorem_c08_bad_frame"],
 "C09": ["theorem_c09_schemes"],
 "C10": ["theorem_c10_raw", "theorem_c10_json", "theorem_c10_refused"],
 "C01": ["theorem_c01_frame_roundtrip"],
 "C02": ["theorem_c02_reads", "theorem_c02_frames"],
 "C03": ["theorem_c03_truncated_string", "theorem_c03_args"],
 "C04": ["theorem_c04_strings", "theorem_c04_headers", "theorem_c04_args"],
 "C05": ["theorem_c05_init", "theorem_c05_call_request", "theorem_c05_call_fields_encoded", "theorem_c05_call_response", "theorem_c05_call_continue", "theorem_c05_cancel", "theorem_c05_claim", "theorem_c05_error", "theorem_c05_empty_is_absent"],
}
NA = {
 "C19": "Liveness of interleaved asynchronous tasks over the whole history of a connection. Deductive contracts state what a call establishes when it returns; that every call eventually returns needs a fair scheduler and a progress argument over concurrent tasks, which Verus cannot express for tokio futures.",
}
TEMP = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "python3 tools/check.py --setup",
 "hooks": {"guard": "cfg(tchannel_verif)", "enable": "RUSTFLAGS=\"--cfg tchannel_verif\"", "source_commits": ["d82be6c", "98e0916"]},
 "checks": [{
   "property": p,
   "quick_cmd": "VERIF_TIER=quick python3 tools/check.py %s" % p,
   "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": TECH, "level": "proof", "level_note": CLAIMED[p],
   **({"theorems": THEOREMS[p]} if p in THEOREMS else {}),
 } for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": NA.get(p) or TEMP.get(p) or "not claimed yet: contracts are being written"} for p in props if p not in CLAIMED],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
