#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
PK = "anthunder/protocol/_package_base.py"; RQ = "anthunder/protocol/_request_pkg.py"; RS = "anthunder/protocol/_response_pkg.py"
SH = "anthunder/protocol/_sofa_header.py"; CN = "anthunder/protocol/constants.py"; HB = "anthunder/command/heartbeat.py"
FR = "anthunder/command/fail_response.py"; RI = "anthunder/helpers/request_id.py"; AC = "anthunder/client/aio_client.py"
BC = "anthunder/client/base.py"; CL = "anthunder/client/client.py"; AL = "anthunder/listener/aio_listener.py"
BL = "anthunder/listener/base_listener.py"; SL = "anthunder/listener/sock_listener.py"; MC = "anthunder/mesh/mesh_client.py"
CO = "mysockpool/connection.py"; CP = "mysockpool/connection_pool.py"; PM = "mysockpool/pool_manager.py"
RU = "mysockpool/recently_used_container.py"; UT = "mysockpool/utils.py"; WT = "mysockpool/_wait.py"
RP = "mytracer/_rpc_id.py"; TI = "mytracer/_trace_id.py"; SC = "mytracer/span_context.py"; SP = "mytracer/span.py"
TR = "mytracer/tracer.py"; TH = "mytracer/helpers.py"; RC = "anthunder/protocol/_rpc_trace_context.py"; ID = "anthunder/helpers/immutable_dict.py"

prop("C01", "Bolt messages survive an encode/decode round trip",
 "Decoding the bytes produced for any Bolt request or response yields a message with the same protocol, type, command, version, request id, codec, header map, content and timeout (requests) or status (responses). "
 "A message whose values do not fit the wire format (out-of-range numbers, oversized sections, content that is not bytes) is refused with an error when it is built or encoded, never silently truncated or altered.",
 ["inputs"], "every header map, content, enumeration code, request id, timeout and status, of any size",
 "The tests round-trip two literal packages and compare four of the fields; sizes, signs, limits and the other fields are never varied.",
 [PK, RQ, RS, SH, CN], [("BoltRequest.to_stream / BoltResponse.to_stream", RQ), ("BoltPackage.from_stream, bolt_header_from_stream, bolt_content_from_stream", PK), ("BoltPackage.validate", PK)],
 observe=["BoltRequest(...).to_stream()", "BoltRequest.from_stream(bytes)", "BoltResponse.from_stream(bytes)"])
prop("C02", "Encoded messages have exactly the Bolt v1 wire layout",
 "Every encoded message is the fixed big-endian Bolt v1 header (22 bytes for requests, 20 for responses) with the fields in protocol order and width, followed by the class name, the header block and the content, with nothing before, between or after. "
 "The three length fields equal the byte lengths of those sections. "
 "Business messages carry the SOFA request or response class name and the REQUEST or RESPONSE command, replies echo the request id they answer, and heartbeats carry the HEARTBEAT command with all three sections empty.",
 ["inputs"], "every message the library can build, including failure replies and heartbeats",
 "Tests decode two captured byte strings; no test compares encoder output with the layout for varying fields.",
 [RQ, RS, PK, HB, FR, CN], [("fmt strings and to_stream", RQ), ("fmt strings and to_stream", RS), ("new_request / response_to constructors", HB), ("FailResponse.response_to", FR)],
 observe=["to_stream() bytes", "bytes written to sockets"])
prop("C03", "Header maps encode and decode losslessly",
 "For every map from text to text, the header block contains each entry exactly once, in order, as a 4-byte big-endian length plus UTF-8 key followed by a 4-byte big-endian length plus UTF-8 value, and the map's reported length is the number of bytes of that block. "
 "Decoding the block gives back an equal map.",
 ["inputs"], "every map from (UTF-8 encodable) text to text with any number of entries of any length, including empty and non-ASCII text",
 "Tests encode one two-entry ASCII map.",
 [SH], [("SofaHeader.to_bytes, __len__, _str_to_bytes_with_len", SH), ("SofaHeader.from_bytes, _bytes_to_str", SH)],
 observe=["SofaHeader(...).to_bytes()", "SofaHeader.from_bytes(bytes)", "len(SofaHeader)"])
prop("C04", "Decoding is total: exact result or the library's decode error",
 "For every byte string, decoding a header block or a whole message terminates and either returns exactly what the layout denotes (a text length of -1 denotes empty text) or raises the library's decode error. "
 "Truncated input, trailing bytes, lengths that are negative or run past the end, text that is not UTF-8, an odd number of texts and unknown enumeration codes are all rejected that way.",
 ["inputs"], "every byte string, in particular every malformed one",
 "Tests only decode well-formed captures; the error branches are excluded from coverage (pragma: no cover) and the space of malformed inputs is unbounded.",
 [SH, PK], [("_bytes_to_str, SofaHeader.from_bytes", SH), ("bolt_header_from_stream, bolt_content_from_stream", PK)],
 observe=["SofaHeader.from_bytes", "BoltRequest.from_stream", "BoltResponse.from_stream"])
prop("C05", "Request ids are in range and not reused within a full cycle",
 "Request ids are integers from 0 to 2^31-1, and no id is handed out twice within any 2^31 consecutive draws, whatever the random starting point. "
 "Every new request, business or heartbeat, carries the next freshly drawn id.",
 ["histories", "inputs"], "every starting point and every number of draws",
 "A test draws a single id; repetition can only show after arbitrarily many draws.",
 [RI, RQ, HB], [("RequestId generator", RI), ("new_request", RQ), ("HeartbeatRequest.new_request", HB)],
 observe=["request_id of the messages sent"])
prop("C06", "Asyncio client hands each caller its own response",
 "Whatever the order, duplication or interleaving of responses and concurrent calls on the asyncio client, the content a call returns is the content of a success response that carries that call's own request id, and each response is delivered at most once. "
 "A response with an unknown request id is ignored and disturbs no other call.",
 ["schedules", "histories", "inputs"], "every interleaving of calls and response frames on the event loop, every frame content",
 "Tests run ten calls against one well-behaved server; reordered, duplicated, unknown or failing responses and most interleavings never occur.",
 [AC], [("request_mapping / response_mapping handshake in invoke, _send_request and _recv_response", AC)],
 state=[("request_mapping", "request id -> event the caller waits on", AC), ("response_mapping", "request id -> received response", AC)],
 observe=["AioClient.invoke_sync / invoke_async results"])
prop("C07", "Asyncio client reports failures as errors and keeps no leftovers",
 "A call on the asyncio client whose response carries a failure status ends with the library's server error for that status, and a call that cannot be sent ends with an error; neither ever yields a normal result, and a callback only ever receives the content of a successful response. "
 "A synchronous call waits no longer than its timeout, and that timeout, when positive, in whole milliseconds, is what the request carries on the wire. "
 "Once a call has been answered, has failed to be sent, or was one-way, the client keeps no record of its request id.",
 ["schedules", "fault_sequences", "inputs"], "every response status, every failing connect or write, every timeout",
 "No test produces a failure status, a refused connection, or a timeout on the asyncio client.",
 [AC, "anthunder/exceptions.py"], [("invoke_sync / invoke_async / callback_wrapper", AC), ("_send_request, _recv_response", AC)],
 observe=["exceptions raised by invoke_sync or set on the future", "bytes sent", "callback invocations"])
prop("C08", "Asyncio client sends each request over a live connection, with retries",
 "Each attempt of the asyncio client to send a request writes the complete encoded request once, and the request is attempted at most three times in all, each retry on a newly opened connection. "
 "A connection on which sending failed is dropped and not used again, while a live connection to an address is reused and never dialled twice concurrently.",
 ["fault_sequences", "schedules"], "every sequence of connection and write failures, every interleaving of concurrent senders",
 "Tests never break a connection.",
 [AC], [("_get_connection, _send_request", AC)],
 state=[("connection_mapping", "address -> (reader task, writer)", AC), ("_pending_dial", "address -> lock", AC)],
 observe=["connections opened", "bytes written"])
prop("C09", "Client one-way calls and heartbeats follow the protocol",
 "A one-way call is sent marked ONEWAY and the caller does not wait for a response. "
 "A client heartbeat is a heartbeat message, and counts as successful exactly when a heartbeat response with the same request id and a success status arrives. "
 "The periodic heartbeat goes on every 30 seconds whatever the outcome of an individual heartbeat.",
 ["inputs", "histories", "fault_sequences"], "every call, every heartbeat outcome, any number of heartbeats",
 "No test makes a one-way call or runs the client heartbeat (the first one fires after 30 s).",
 [AC, CL, HB], [("invoke_oneway", AC), ("invoke_heartbeat, _heartbeat_timer, _recv_response", AC), ("invoke_oneway", CL)],
 observe=["ptype/cmdcode on the wire", "invoke_heartbeat result"])
prop("C10", "Asyncio server answers each request exactly once with the right status",
 "For each complete two-way request frame the asyncio server sends exactly one response, carrying that request's id: a success response with the bytes returned by the service method (also when they are empty), otherwise a failure response. "
 "Failure statuses are CLIENT_SEND_ERROR for a wrong command, wrong class name, or missing service or method name, CODEC_EXCEPTION for an undecodable header block, NO_PROCESSOR for an unregistered service or method, SERVER_EXCEPTION when the service object cannot be set up, TIMEOUT when the request's positive timeout elapses or the method itself raises a timeout or cancellation, and UNKNOWN when the method raises anything else. "
 "A heartbeat is answered with one heartbeat success response without touching any service, and a one-way request that reaches a service is never answered.",
 ["inputs", "schedules", "fault_sequences"], "every request frame, every service behaviour, every interleaving of requests on a connection",
 "Tests send valid requests to one well-behaved service; none of the failure rows is exercised.",
 [AL, FR, HB], [("_handler_connection, _dispatch, _write_msg", AL)],
 observe=["bytes written to the connection"])
prop("C11", "Asyncio server stays in step with the byte stream",
 "On each connection the asyncio server consumes exactly the bytes of one frame per request (fixed header plus the three declared sections), whether the request is served, rejected or undecodable, so the following frame is always read from its first byte. "
 "When the connection ends or breaks inside a frame, the server stops reading and closes it, and it never sends a reply for a request id that was already completely received.",
 ["inputs", "histories", "fault_sequences"], "every sequence of well-formed and malformed frames, every point where the stream ends",
 "Tests send only well-formed frames, mostly one per connection, and never cut a stream.",
 [AL], [("_handler_connection", AL)],
 observe=["subsequent responses on the same connection", "connection close"])
prop("C12", "Requests reach exactly the registered service method",
 "A request naming a registered interface and method creates the service from the factory registered last for that interface, passing the request's trace context first and then the extra arguments given at registration, and calls exactly the named method once with exactly the request's content bytes. "
 "An unregistered interface or a missing method calls nothing and is reported as having no processor, for both the asyncio and the blocking server.",
 ["inputs", "histories"], "every registration history and every service, method and content",
 "Tests register one class and call one method.",
 [AL, SL, BL], [("handle_request / register_interface", AL), ("handle_request / register_interface", SL)],
 state=[("interface_mapping", "interface -> service factory", BL)],
 observe=["service constructor and method invocations"])
prop("C13", "Blocking client returns only its own, complete, successful response",
 "The blocking client returns content only if it received a complete response frame, however the network fragments it, with the request id it sent and a success status, and the returned bytes are exactly that frame's content; any other response raises an error. "
 "A call ends with an error once its deadline (the timeout plus one second) passes or the server closes the connection early; it never spins or blocks forever, and it never puts a connection with unread or missing bytes back into use.",
 ["inputs", "fault_sequences", "schedules"], "every fragmentation of the response, every response content, every premature close or silence",
 "No test calls the blocking client over a socket at all.",
 [CL], [("invoke_sync, _raw_invoke", CL)],
 observe=["Client.invoke_sync result or exception"])
prop("C14", "Blocking server answers each frame correctly and always terminates",
 "For the complete request frame received on a connection, however fragmented, the blocking server writes exactly one reply carrying the request's id when the request is a heartbeat (heartbeat success), lacks a service or method name (CLIENT_SEND_ERROR), or is a two-way request that is served (success with exactly the bytes the method returned); it writes no success reply in any other case. "
 "If the peer closes the connection before the frame is complete, handling ends without writing a reply instead of looping.",
 ["inputs", "fault_sequences"], "every frame, every fragmentation and every premature end of stream",
 "No test runs the blocking server.",
 [SL], [("SockBoltHandler.handle, _readexactly", SL)],
 observe=["bytes written to the connection", "termination of the handler"])
prop("C15", "Connection pool respects its limits and hands out usable connections",
 "A connection pool never has more than its maximum number of connections counted, under any interleaving of threads, and a connection found dropped is closed, uncounted and never handed out. "
 "While the pool is open, every counted connection is either idle in the pool or held by a caller: returning a connection keeps it if there is room, otherwise closes and uncounts it. "
 "After close, every idle connection has been closed, getting raises the closed-pool error, returned connections are closed, and closing again is harmless.",
 ["schedules", "histories", "configurations"], "every interleaving of get/put/close by any number of threads, every pool configuration",
 "One single-threaded scenario with dropped-connection detection mocked out.",
 [CP, UT], [("_new_conn, get_conn, put_conn, close", CP), ("is_connection_dropped", UT)],
 state=[("num_connections", "connections counted", CP), ("pool", "LIFO queue of idle connections, None once closed", CP)],
 observe=["get_conn/put_conn results", "num_connections", "connections closed"])
prop("C16", "Pool cache is bounded, least-recently-used and disposes exactly once",
 "The recently-used container never holds more than its maximum number of entries; a lookup returns the value last stored under that key; storing beyond the limit evicts exactly the entry whose last read or write is oldest. "
 "Every value that is evicted, replaced by another value, deleted or cleared is passed to the dispose callback exactly once and outside the lock, and no value still held is disposed of.",
 ["histories", "schedules"], "every history of reads, writes, deletes and clears, every size limit, concurrent threads",
 "Tests exercise one five-step history at size 2.",
 [RU], [("__getitem__, __setitem__, __delitem__, clear", RU)],
 state=[("_container", "ordered mapping, least recently used first", RU)],
 observe=["container contents", "dispose callback invocations"])
prop("C17", "Pool manager: one live pool per key, connections always given back",
 "While a key's pool is cached, asking the pool manager for that key returns that same pool, under any interleaving; different keys get different pools, and each new pool is created for the requested key with the configured parameters. "
 "A pool that is evicted or cleared gets closed. "
 "A scoped connection is put back into the pool it came from exactly once however the block ends, the block's exception is passed on, and nothing is put back when no connection was obtained.",
 ["histories", "schedules", "fault_sequences"], "every sequence and interleaving of lookups, every way a scope can end",
 "Tests use three keys sequentially and leave a scope normally.",
 [PM, RU], [("connection_pool_from_pool_key, connection_scope, clear", PM)],
 observe=["identity of pools", "put_conn calls", "closed pools"])
prop("C18", "Socket helpers transfer exactly the bytes asked for",
 "Sending everything on a pooled connection passes every byte of the data to the socket exactly once and in order, however few bytes each write accepts. "
 "Receiving an exact number of bytes returns precisely the next that many bytes of the stream, however it is fragmented, leaving the following bytes unread, and raises an error instead of looping when the stream ends early. "
 "Readiness waiting returns only sockets the system reported ready for the requested event.",
 ["inputs", "fault_sequences"], "every data size, fragmentation, partial write and end-of-stream point",
 "No test transfers data over a pooled connection.",
 [CO, WT], [("sendall, recvexactly", CO), ("wait_for_read, wait_for_write", WT)],
 observe=["bytes passed to or taken from the socket"])
prop("C19", "RPC ids form a proper call tree",
 "A child's RPC id is its parent's id extended by one number, and a follow-up of a child is another child of the same parent: all ids derived from one parent, as children or as follow-ups of those children in any order, are pairwise distinct and share the parent's id as prefix. "
 "The follow-up of an id without known parent has the same leading segments and the last number increased by one. "
 "Two ids are equal exactly when all their segments are, and printing an id whose text segments contain no dot and parsing the result gives an equal id, while an id whose last segment is not a number is rejected.",
 ["histories", "inputs"], "every history of derivations and every id, with any number of segments",
 "Tests walk a handful of fixed derivations.",
 [RP], [("RpcId._new_child_of, _new_follows_from, extend_id, __init__, __eq__, __str__", RP)],
 state=[("_child_count", "children allocated so far", RP)],
 observe=["str(RpcId)"])
prop("C20", "Trace context propagates unchanged from caller to service",
 "A child or follow-up context keeps the parent's trace id and every baggage item, changes only the RPC id, and leaves the parent's baggage unmodified. "
 "The header built for a call carries the interface, method, target application, user id and every baggage item (as text, under the trace prefix), and extracting a context from those headers or from an injected carrier gives back every baggage item (other than one named self or reference) with the same text and nothing else. "
 "A carrier that does not denote a valid context is rejected with the tracing API's error.",
 ["inputs"], "every baggage map, id and carrier",
 "Tests use one literal carrier and never connect injection or the RPC header to extraction.",
 [TR, SC, RC, SH], [("MyTracer.inject / extract", TR), ("SpanContext.__init__", SC), ("SofaHeader.build_header, RpcTraceContext.expand", SH)],
 observe=["span context baggage", "header map sent"])
prop("C21", "Spans record what they are given; trace ids are unique",
 "Starting a span records the given operation name, every given tag, the given start time, and a context derived from the given parent (child), reference (child or follow-up) or freshly created; leaving a span's scope finishes it and never swallows an exception. "
 "Trace ids created in one process are pairwise different as long as fewer than 8001 are created within one millisecond, and a trace id built from a given text prints as that text.",
 ["inputs", "histories"], "every name, tag map, start time, reference and creation history",
 "Tests never pass tags, and compare two consecutive trace ids.",
 [TR, SP, TH, TI], [("MyTracer.start_span", TR), ("MySpan", SP), ("TraceId", TI)],
 observe=["span attributes", "str(TraceId)"])
prop("C22", "Mesh control calls succeed only when the mesh says so",
 "Each mesh operation sends one POST with the documented payload to the documented endpoint of the local mesh and returns its reply only if the HTTP status is 200 and the reply says success is true; otherwise it raises an error, a connection error when the mesh answered with another status or without success. "
 "The application is registered at most once per successful start-up, under any interleaving of threads, a failed registration is attempted again by the next start-up, and unset application fields are left out.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every HTTP status and reply body, every history of start-ups",
 "Tests only mock successful replies and ignore payloads.",
 [MC], [("MeshClient._post, startup, subscribe, unsubscribe, publish, unpublish", MC)],
 observe=["HTTP requests issued", "return value or exception"])
prop("C23", "Service addresses resolve predictably and are never silently rebound",
 "A call goes to the address mapped to its interface, with the default SOFA port when only a host is mapped, and to the local mesh when nothing is mapped. "
 "Assigning a new address (item assignment) to an already mapped interface is refused and changes nothing. "
 "Subscribing maps an interface to the mesh exactly when the mesh accepted it and it was not mapped, unsubscribing removes the mapping exactly when the mesh accepted it, failures of one interface do not stop the others, and without a mesh both do nothing.",
 ["inputs", "histories", "fault_sequences"], "every map content, interface list and mesh outcome",
 "Tests resolve one unmapped interface and assign one key twice.",
 [BC, ID], [("_get_address, subscribe, unsubscribe", BC), ("ImmutableValueDict.__setitem__", ID)],
 state=[("SERVICE_MAP", "interface -> address", "anthunder/__init__.py")],
 observe=["connected address", "SERVICE_MAP content", "mesh requests"])
prop("C24", "Publishing announces exactly the registered interfaces",
 "Publishing a listener sends exactly one publish request per registered interface, with the listener's port as text, the interface name, and the Bolt/protobuf provider description with the application's name; unpublishing sends exactly one unpublish request per registered interface. "
 "Without a mesh, neither sends anything, and a mesh that cannot be reached when a client or listener is constructed never makes the construction fail.",
 ["inputs", "histories", "fault_sequences"], "every set of registered interfaces, every mesh outcome at construction",
 "No test publishes through a listener.",
 [BL, BC, MC], [("BaseListener.publish / unpublish / __init__", BL), ("_BaseClient.__init__", BC)],
 observe=["HTTP requests issued"])
prop("C25", "Every asynchronous call eventually completes",
 "Every call started on the asyncio client eventually completes, with a result or an error, also when the connection is lost while it waits and no timeout was given.",
 ["schedules", "fault_sequences"], "every schedule and every connection loss",
 "Eventual completion over all schedules is a liveness property.",
 [AC], [("invoke, _recv_response", AC)],
 observe=["completion of the returned future"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
