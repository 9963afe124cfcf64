#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
                   mechanism=[dict(zip(("name","where"),m)) for m in mech],observe_at=list(observe),hook_needed=hook)))
FM='src/frames/mod.rs'; PL='src/frames/payloads.rs'; FR='src/fragmentation.rs'; DF='src/defragmentation.rs'
CN='src/connection/mod.rs'; PO='src/connection/pool.rs'; SV='src/server.rs'; SC='src/subchannel.rs'; CH='src/channel.rs'
HD='src/handler.rs'; RAW='src/messages/raw.rs'; JS='src/messages/json.rs'; HE='src/frames/headers.rs'; ER='src/errors.rs'
HK='cfg(tchannel_verif) re-exports in src/verif_hooks.rs'
p('C01','Frames round-trip through the wire format',
 "For every frame type, message id and payload that fits into a frame, encoding the frame writes exactly the TChannel frame layout (2 byte big-endian total size, type byte, reserved byte, 4 byte big-endian id, 8 reserved bytes, payload), appended after whatever the output buffer held. Decoding those bytes gives back the same type, id and payload, consumes exactly that frame and leaves any following bytes untouched. Every defined frame type keeps its protocol type code in both directions.",
 ['inputs'],'every frame type, every 32 bit id, every payload of 0..=65519 bytes, every prior content of the output buffer and every trailing input bytes',
 'the tests only send a handful of frames between two copies of the same code, so a symmetric mistake (a swapped field, a wrong type code) passes them',
 [FM],[('TFrameIdCodec::encode/decode',FM),('Type discriminants and FromPrimitive',FM)],
 [('frame header','size, type, id',FM)],['bytes written to and read from the socket'],HK)
p('C02','Frame boundaries do not depend on how bytes arrive',
 "However the byte stream of a connection is cut into reads, the decoder yields the same sequence of frames, ids and payloads in the same order. While a frame is incomplete the decoder reports that it needs more data and leaves the buffered bytes as they are; once complete it consumes exactly the size announced in the frame. Frames with an unknown type or a size smaller than the frame header are reported as errors, never as frames.",
 ['inputs','schedules'],'every byte stream and every way of splitting it into reads',
 'loopback tests hardly ever see a frame split in the middle of its header or several frames merged in one read',
 [FM],[('TFrameIdCodec::is_buffering',FM),('TFrameIdCodec::decode',FM)],[('src','bytes buffered by the framed reader',FM)],['decoded frames'],HK)
p('C03','Malformed bytes from a peer never panic',
 "Whatever bytes a peer sends, as a frame or as the payload of any kind of message (handshake, request, response, continuation, error, cancel, claim), decoding either yields a value or returns an error. It never panics, never reads past the end of the payload, and a truncated or inconsistent payload (wrong lengths, unknown codes or flags, invalid UTF-8, unsupported checksum, too few or too many arguments) is an error rather than a made-up value.",
 ['inputs'],'every byte string up to the largest frame, for every payload kind',
 'the tests decode only payloads produced by the matching encoder',
 [FM,PL,DF],[('Codec::decode implementations',PL),('decode_args/decode_arg/decode_headers_field/decode_string_field/decode_checksum',PL),('verify_args',DF)],(),['result of decoding'],HK)
p('C04','Length fields on the wire never lie',
 "Every length or count field that is written (frame size, string length, header count, argument length) equals the number of bytes or items that follow it. A frame, string, header list or argument list too large for its length field, and an argument list that is empty or has more than three chunks, is refused with an error instead of being written with a wrapped or truncated length. A frame that is refused leaves the output buffer as it was.",
 ['inputs'],'every frame payload size, string length, header count and argument chunk size, including those just below, at and above each limit',
 'tests stay far below the field limits, where wrapping is invisible',
 [FM,PL,SV],[('TFrameIdCodec::encode size check',FM),('encode_len, encode_args, encode_string_field',PL),('FrameHandler::to_error_frame',SV)],(),['encoded bytes'],HK)
p('C05','Message payloads round-trip in the protocol layout',
 "For every handshake, call request, call response, continuation, cancel, claim and error message whose parts fit their fields, the encoded payload has the field order and widths of the TChannel protocol, and decoding it yields equal flags, ttl, tracing, service, headers, response code, checksum and argument chunks. An empty argument chunk and an absent one are the same on the wire. Enum codes (checksum, error, response, flags) map to their protocol values in both directions.",
 ['inputs'],'every value of every field, every header map, one to three argument chunks of any fitting size',
 'tests round-trip two fixed messages through encoder and decoder of the same code',
 [PL],[('impl Codec for Tracing, Init, CallArgs, CallRequestFields, CallRequest, CallResponseFields, CallResponse, CallContinue, Cancel, Claim, ErrorMsg',PL)],(),['encoded payload bytes and decoded values'],HK)
p('C06','Fragmented messages reassemble to the same arguments',
 "A request or response cut into frames by this implementation reassembles at the receiver to exactly the same number of arguments with exactly the same bytes, whatever their sizes and even where an argument ends at or next to a frame boundary. More generally, any sequence of argument chunks is reassembled by the protocol rule: within a frame each further chunk starts the next argument, and the first chunk of a continuation frame (possibly empty) continues the argument the previous frame ended in.",
 ['inputs'],'every list of one to three arguments of any length, every service name length, and every chunking a conforming peer may choose',
 'the tests use a few sizes; the boundary cases need argument lengths that leave exactly 0, 1 or 2 bytes in a frame',
 [FR,DF],[('ArgsFragmenter::next_frame_args_vec/next_arg_fragment',FR),('Fragmenter::create_frames',FR),('ArgsDefragmenter::add',DF)],
 [('args','arguments still to be sent or received so far',FR+', '+DF)],['arguments handed to the handler or caller'],HK)
p('C07','Fragment streams are well formed',
 "For every service name of up to 255 bytes and every list of one to three arguments, fragmentation succeeds and produces a first frame of the call type followed by continuation frames of the matching type. Every frame fits the maximal frame size, carries one to three argument chunks, and has the more-fragments flag set exactly when another frame follows. The first frame carries the service name, time to live and headers of the call.",
 ['inputs'],'every list of one to three arguments of any length, every service name of up to 255 bytes, requests and responses',
 'a frame that is one byte too long or a wrong flag needs particular argument sizes',
 [FR],[('Fragmenter::create_frames',FR),('Fragmenter::current_frame_flag',FR),('calculate_payload_limit',FR)],(),['frames of a message'],HK)
p('C08','Incomplete messages are never delivered as complete',
 "A request or response is delivered only after its first frame of the expected type and every continuation up to and including the frame without the more-fragments flag were received. If the connection or exchange ends earlier, or an error frame, a frame of another type, or a frame that cannot be decoded arrives instead, the reader gets an error and no partial message. No frame after the last fragment is consumed into the message.",
 ['inputs','histories','fault_sequences'],'every sequence of frames followed by an end of input at any point',
 'the tests only play complete, correct sequences',
 [DF],[('Defragmenter::read_beginning',DF),('read_continuation',DF)],[('frame_input','frames of one exchange',DF)],['result of reading a request or response'],HK)
p('C09','Argument scheme is declared and enforced',
 "Every outgoing request and response carries the transport header with its argument scheme and a caller name header. A received request or response without the scheme header or with an unknown scheme is refused with an error, and a message read as a particular message type is accepted only when the declared scheme is the scheme of that type. Scheme and header names have their protocol spelling in both directions.",
 ['inputs'],'every header map and every scheme',
 'tests always exchange messages of equal schemes',
 [DF,FR,HE,RAW,JS],[('get_args_scheme, ArgSchemeChecker::check',DF),('Fragmenter::create_headers',FR),('strum serializations',HE)],(),['result of reading a message; headers on the wire'],HK)
p('C10','Messages map to arguments without loss',
 "Converting a raw message to arguments gives exactly endpoint, header and body, in that order, under the raw scheme, and a JSON message gives method name, headers and body JSON under the json scheme; converting back yields an equal message. Arguments of another scheme, or with text that is not UTF-8 (or not JSON objects), are refused with an error. Missing trailing raw arguments read as empty.",
 ['inputs'],'every endpoint, header and body; every argument list',
 'tests use short ASCII values in the right scheme',
 [RAW,JS],[('TryFrom/TryInto<MessageArgs> for RawMessage',RAW),('TryFrom/TryInto<MessageArgs> for JsonMessage',JS)],(),['converted values'],HK)
p('C11','Handler outcomes reach the caller as what they were',
 "A handler's successful response reaches the caller as a success with the same content, and a handler's error message reaches the caller as an error message with the same content, never as a success. A general or internal handler error reaches the caller as an error. A request that cannot be converted to the handler's message type never reaches the handler.",
 ['inputs','histories'],'every handler outcome, synchronous and asynchronous handlers, every message',
 'the tests only use an echo handler that always succeeds',
 [HD,SC,FR,DF],[('convert',HD),('RequestHandlerAdapter/RequestHandlerAsyncAdapter::handle',HD),('SubChannel::send',SC),('ResponseFragmenter/ResponseDefragmenter',FR)],(),['result of SubChannel send'],HK)
p('C12','Frames reach exactly the exchange with their id',
 "Every frame received on a connection is delivered to the exchange registered under its message id and to no other, in the order of arrival. A frame with an id that is not registered starts a new exchange on a server and is reported as an error on a client, without touching other exchanges. Registering an id that is in use fails and leaves the existing exchange working; removing an id removes only that one.",
 ['histories','schedules'],'every sequence of register, deregister, dispatch operations and every set of ids',
 'tests never produce duplicate or unknown ids',
 [CN,SV],[('FramesDispatcher::dispatch/dispatch_following/dispatch_first/register/deregister',CN)],[('senders','pending ids mapped to their channels',CN)],['frames received by each exchange'],HK)
p('C13','Exchanges have distinct ids and keep to them',
 "Each exchange opened on a connection gets a message id no other pending exchange of that connection has, and every frame sent on the exchange carries that id in order of sending. All frames of a response, including error frames, carry the id of the request they answer. Closing an exchange releases exactly its own id.",
 ['histories','schedules'],'every number and interleaving of exchanges on a connection',
 'sequential tests use one id at a time',
 [CN,SV],[('Connection::next_message_id/new_frames_io',CN),('FrameOutput::send/close',CN),('FrameHandler::handle_input',SV)],[('next_message_id','counter of ids',CN)],['ids of frames on the wire'],HK)
p('C14','No traffic before a valid handshake',
 "A connection is used for calls only after an init request answered by an init response of protocol version 2; a server answers an init request of version 2 with an init response of version 2 under the same id. Any other version, frame type, error frame, malformed payload or end of the connection makes the handshake fail: the client refuses to use the connection and the server handles no request from it. An error frame received during the handshake is reported with its content and id.",
 ['inputs','fault_sequences'],'every first frame and payload on either side',
 'tests only connect matching peers',
 [PO,SV],[('verify, init_handshake',PO),('Server::handle_init_handshake/check_init_req/send_init_res',SV)],(),['result of connecting; frames on the wire'],HK)
p('C15','Registered names are unique and requests go to the named handler',
 "Registering a handler under an endpoint name in use fails and keeps the existing handler, unregistering removes exactly the named handler and fails if there is none, and a request is handled by the handler registered under exactly its endpoint name of its service or fails if there is none. Asking for a subchannel of a name always gives the same subchannel once it exists, and distinct names give distinct subchannels; asking for the connection pool of an address always gives the same pool once it exists.",
 ['histories','schedules'],'every sequence of registrations, removals, lookups and requests, with any names',
 'tests register one service and endpoint each',
 [SC,CH,PO,SV],[('SubChannel::register_handler/unregister/get_handler/handle',SC),('TChannel::subchannel/create_subchannel',CH),('ConnectionPools::get/create_pool',PO),('FrameHandler::get_subchannel',SV)],
 [('handlers','endpoint name to handler',SC),('subchannels','service name to subchannel',CH),('pools','address to pool',PO)],['results of registry operations, handler invocations'],HK)
p('C16','At most one running server per channel',
 "Starting a server on a channel whose server is running fails and leaves the running server as it is. Shutting down stops the running server, does nothing and succeeds when none runs, and afterwards a server can be started again. Dropping the channel stops its server.",
 ['histories'],'every sequence of start, shutdown and drop',
 'the tests start and stop a server once',
 [CH],[('TChannel::start_server/shutdown_server, Drop for TChannel',CH)],[('server_handle','handle of the server task',CH)],['results of start and shutdown, whether the port is served'],None)
p('C17','A failed request fails alone',
 "When a request fails on the server (unknown service or endpoint, undecodable or wrong-scheme arguments, unsupported frame type, handler failure) its caller is answered with an error frame carrying the id of that request. The connection, all other exchanges on it and later requests are not affected, and the id of the failed request is released.",
 ['inputs','histories','fault_sequences'],'every kind of request failure, mixed with any other requests on the connection',
 'tests send only requests that succeed',
 [SV],[('FrameHandler::handle/handle_input/to_error_frame',SV),('Server::handle_connection',SV)],[('frame_dispatchers','exchanges of the connection',SV)],['frames sent by the server'],HK)
p('C18','Losing a connection ends its pending calls',
 "When the peer closes the connection or sends something that is not a valid frame, every call pending on that connection ends with an error. A call attempted on the lost connection afterwards fails instead of waiting forever, and the client then replaces the connection with a new one.",
 ['histories','fault_sequences'],'every set of pending calls and every point at which the connection ends',
 'tests never break a connection',
 [CN,PO],[('FrameReceiver::run',CN),('FramesDispatcher::close/register',CN),('ConnectionManager::has_broken',PO)],[('closed','whether the connection ended',CN)],['results of pending and later calls'],HK)
p('C19','Concurrent calls always make progress',
 "As long as both peers are alive and handlers return, every call on a connection eventually completes, whatever number of large and small calls is in flight at once.",
 ['schedules','configurations'],'every number of concurrent calls, message sizes, buffer sizes and task limits',
 'tests use few concurrent calls with default settings',
 [SV,CN],[('Server::handle_connection concurrency limit',SV),('bounded channels',CN)],(),['completion of calls'],None)
p('C20','Calls go over the one pool of their address, limited as configured',
 "A client keeps one connection pool per peer address, and every pool it makes is limited as its configuration says: by the configured maximum number of open connections, the configured lifetime of a connection and whether connections are tested before use. Every call goes over a connection of the pool of its address and connections are opened for a pool only, one at a time and to its address, so that with a healthy peer no more than the configured maximum of connections to one address is ever open, however many calls are made at once.",
 ['histories','schedules','configurations'],'every history of calls to any addresses and every pool configuration',
 'tests use one connection with default settings',
 [PO,SC],[('ConnectionPools::new/get/create_pool',PO),('ConnectionManager::connect',PO),('SubChannel::connect/send',SC)],[('pools','address to pool',PO)],['open connections, the connection a call uses'],None)
p('C21','No more requests of a connection are handled at once than configured',
 "On each connection the server calls handlers for at most `server_tasks` requests at the same time; 0 means that there is no limit. A complete request beyond that number is neither refused nor dropped: it is handled as soon as one of the others is done, whether that one succeeded or failed. Requests of which frames are still missing, requests that were refused and requests of other connections do not count.",
 ['histories','schedules','configurations'],'every number of tasks and every mix and order of complete, incomplete, failing and slow requests on any number of connections',
 'tests never have more requests in flight than there are tasks',
 [SV],[('request_permits, FrameHandler::handle_input',SV),('Server::run/handle_connection',SV)],[('permits','requests of the connection that may be handled',SV)],['how many handlers run at once'],None)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
