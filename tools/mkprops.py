#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("P01", "Bolt frames have the exact v1 layout and round-trip losslessly",
 "Serialising any request or response package (any type, command, codec, status, request id 0..2^31-1, signed 32-bit timeout, header map and content bytes) yields exactly the Bolt v1 layout: fixed big-endian fields, then class name, header map and content, with length fields equal to the bytes that follow. Parsing that frame gives back every field, and a serialised request or response is the one its constructor was asked for. Bytes that are truncated, have trailing data, carry an unknown enum value or do not fit the length fields are rejected with a protocol error, never accepted and never another exception.",
 ["inputs"], "all packages whose fields fit the wire format; all byte strings presented to the parser",
 "Tests round-trip two small packages and parse two captured frames; boundary lengths, every enum value, negative timeouts and malformed frames are never tried.",
 ["anthunder/protocol/_package_base.py", "anthunder/protocol/_request_pkg.py", "anthunder/protocol/_response_pkg.py", "anthunder/protocol/constants.py", "anthunder/command/heartbeat.py", "anthunder/command/fail_response.py"],
 [("struct format + length fields", "anthunder/protocol/_request_pkg.py:to_stream, _response_pkg.py:to_stream"), ("unpack + enum validation", "anthunder/protocol/_package_base.py:bolt_content_from_stream, __init__")],
 observe=["BoltRequest/BoltResponse.to_stream", "from_stream", "bolt_header_from_stream", "bolt_content_from_stream"])

prop("P02", "Header maps round-trip; malformed header bytes are always rejected",
 "Any map from strings to strings (any Unicode, empty strings included) serialises to length-prefixed UTF-8 pairs whose byte count is what the map reports as its length, and parses back to an equal map; a null marker (length -1) parses as the empty string without consuming what follows. Parsing terminates on every byte string and either yields exactly the encoded entries or raises a decode error (truncated, other negative length, odd number of strings, invalid UTF-8).",
 ["inputs"], "all string maps and all byte strings up to the 65535-byte header limit",
 "One ASCII map is tested. An infinite loop on malformed bytes has been shipped before (HISTORY 0.5.6).",
 ["anthunder/protocol/_sofa_header.py"],
 [("length-prefixed encode/decode loop", "anthunder/protocol/_sofa_header.py:_str_to_bytes_with_len,_bytes_to_str"), ("pairing", "anthunder/protocol/_sofa_header.py:SofaHeader.from_bytes")],
 observe=["SofaHeader.to_bytes/from_bytes/len()"])

prop("P03", "Asyncio server: every two-way request gets exactly one reply with its id",
 "On a live connection, each well-framed two-way request (valid or not, whatever its service does: return content, return empty content, return something unencodable, return nothing, raise, outlive its timeout, not exist, or carry a broken trace context) is answered by exactly one response frame carrying that request's id. The server never sends a response that answers no received request, and response frames are never interleaved or torn, in any completion order of concurrent requests.",
 ["schedules", "inputs", "histories"], "all sequences of pipelined requests on any number of connections, all service outcomes, all completion orders",
 "The tests only send requests whose service succeeds with non-empty content, one response at a time is read, and nobody counts responses.",
 ["anthunder/listener/aio_listener.py", "anthunder/command/fail_response.py"],
 [("dispatch coroutine with one write on each path", "anthunder/listener/aio_listener.py:_dispatch"), ("single write per frame", "anthunder/listener/aio_listener.py:_write_msg")],
 state=[("per-request phase", "received / running / answered", "the _dispatch task")],
 observe=["bytes the server sends on the client's socket"])

prop("P04", "Asyncio server: reply status and content state what really happened",
 "A SUCCESS reply to a service call carries exactly the bytes that request's own service invocation returned; SUCCESS is never sent for a request whose service did not complete normally. Failures carry the status of their cause: unknown service or method gives NO_PROCESSOR, missing service or method name or wrong command or class name gives CLIENT_SEND_ERROR, an undecodable header map gives CODEC_EXCEPTION, failure before the method runs (service construction, trace context) gives SERVER_EXCEPTION, an exception in the method gives UNKNOWN, an unsendable result gives SERVER_SERIAL_EXCEPTION, a missed deadline gives TIMEOUT.",
 ["inputs", "schedules"], "all request kinds and service outcomes, including concurrent requests whose replies could be swapped",
 "Only the success status is ever observed by the tests.",
 ["anthunder/listener/aio_listener.py", "anthunder/protocol/constants.py"],
 [("exception-to-status mapping", "anthunder/listener/aio_listener.py:_dispatch,_handler_connection"), ("lookup errors", "anthunder/listener/aio_listener.py:handle_request")],
 observe=["status and content fields of reply frames", "service invocations"])

prop("P05", "Requests reach exactly the addressed service, once, with their own data",
 "Each accepted request runs the named method exactly once (unless its timeout expires while all workers are busy), on a fresh service object made by the factory (with its extra constructor arguments) registered for the addressed interface (header sofa_head_target_service, or service where that is absent) on that listener, with exactly the request's body bytes and a trace context holding the request's trace entries. Nothing runs for rejected, truncated or heartbeat frames, and an interface registered on one listener is not served or published by another listener, of either kind.",
 ["inputs", "histories", "configurations"], "all registrations on any number of listeners in a process, all requests, concurrent or not",
 "Tests use one listener with one interface and one method; cross-talk between requests, interfaces or listeners cannot show.",
 ["anthunder/listener/base_listener.py", "anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py"],
 [("interface registry", "anthunder/listener/base_listener.py:BaseHandler.interface_mapping"), ("factory + getattr dispatch", "handle_request in both handlers")],
 state=[("interface_mapping", "interface -> service factory", "anthunder/listener/base_listener.py:BaseHandler")],
 observe=["service constructor and method calls"])

prop("P06", "Asyncio server: framing survives fragmentation, pipelining and bad frames",
 "What the server does with a byte stream depends only on the bytes, not on how they are split into segments: pipelined requests are taken one frame after another, and a well-framed but invalid frame (undecodable header map, wrong class name, response command) is refused by itself without shifting or losing the frames after it on the connection. A frame cut off by end of stream is never dispatched, after end of stream the server closes that connection without re-answering requests it already answered, and no behaviour of one connection disturbs another.",
 ["inputs", "schedules", "fault_sequences"], "all frame sequences, all segmentations of their bytes, a disconnect (EOF or reset) at every byte position",
 "Tests send each request in one segment, never a bad frame, and never disconnect mid-frame.",
 ["anthunder/listener/aio_listener.py"],
 [("readexactly by header lengths", "anthunder/listener/aio_listener.py:_handler_connection"), ("error paths continue/close", "anthunder/listener/aio_listener.py:_handler_connection")],
 observe=["reply stream and service invocations under chosen segmentations"])

prop("P07", "One-way requests are marked one-way, executed once, never answered or awaited",
 "A one-way call from either client is sent exactly once as a one-way request frame and returns without waiting for the service, also when the service is slow, fails or does not exist. Both listeners execute a one-way request like a two-way one and send nothing back for it, whatever its outcome, and keep serving the other requests.",
 ["inputs", "schedules", "histories"], "all mixtures of one-way and two-way requests, all service outcomes",
 "No test uses one-way calls.",
 ["anthunder/client/aio_client.py", "anthunder/client/client.py", "anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py"],
 [("ptype on oneway requests", "anthunder/client/aio_client.py:invoke_oneway, client/client.py:invoke_oneway"), ("no reply when call_type is ONEWAY", "anthunder/listener/aio_listener.py:_dispatch, sock_listener.py:handle")],
 observe=["frames on the wire", "service invocations", "return of the oneway call"])

prop("P08", "Heartbeats are answered at once and sent for as long as the client lives",
 "Both listeners answer a heartbeat request with a SUCCESS heartbeat response carrying the same id, without invoking a service and without waiting for requests in progress. A client attached to the mesh keeps sending heartbeats, 30 seconds after the last one was answered or failed and at most 60 seconds apart, for as long as it lives, whatever the answers (success, error status, none because the connection was lost or refused), and a heartbeat check reports true exactly when a matching SUCCESS answer arrives. Heartbeat traffic never completes or fails an ordinary call.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of heartbeats with calls, all heartbeat outcomes, any number of periods",
 "One heartbeat is sent by hand to the server in the tests; the client's periodic heartbeat never runs there.",
 ["anthunder/client/aio_client.py", "anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py", "anthunder/command/heartbeat.py"],
 [("heartbeat timer coroutine", "anthunder/client/aio_client.py:_heartbeat_timer,invoke_heartbeat"), ("heartbeat short-circuit before dispatch", "anthunder/listener/aio_listener.py:_handler_connection, sock_listener.py:handle")],
 observe=["heartbeat frames at a scripted mesh address", "result of the heartbeat check"])

prop("P09", "Asyncio server: a request's timeout is enforced, once and only when due",
 "A two-way request with a positive timeout of T ms whose service has not completed gets a TIMEOUT reply, not before T ms have passed and without waiting for the service; a service that completes in time is answered normally. A result that arrives after TIMEOUT was sent is discarded, and a request with a non-positive timeout is never timed out.",
 ["schedules", "inputs"], "all timeouts, all orders of completion and expiry over concurrent requests",
 "Test services always finish before the timeout.",
 ["anthunder/listener/aio_listener.py"],
 [("wait_for with timeout_ms / 1000", "anthunder/listener/aio_listener.py:_dispatch")],
 observe=["reply frames with their arrival times"])

prop("P10", "Blocking server: one faithful answer per connection, and it always lets go",
 "For each connection the blocking listener reads one request, regardless of how its bytes are segmented; if the two-way request succeeds it sends exactly one SUCCESS response with the request's id and the service's bytes, and otherwise never a SUCCESS response. The connection is then closed and its handling ends - also when the peer disconnects at any byte position, sends malformed or unroutable requests or the service raises - and other connections are served meanwhile.",
 ["inputs", "fault_sequences", "schedules"], "all requests and service outcomes, all segmentations, a disconnect at every byte position, concurrent connections",
 "No test runs the blocking listener at all.",
 ["anthunder/listener/sock_listener.py"],
 [("read loop", "anthunder/listener/sock_listener.py:SockBoltHandler._readexactly"), ("one request per handle()", "anthunder/listener/sock_listener.py:SockBoltHandler.handle")],
 observe=["bytes and EOF on the client's socket", "listener threads", "service invocations"])

prop("P11", "Asyncio client: each call returns the content of its own response only",
 "A successful call returns exactly the content of a SUCCESS response frame that carries that call's request id, whatever the order, segmentation or timing of responses, including a response that arrives while the request is still being written. Duplicate responses, responses with unknown ids, late responses to timed-out calls and frames for other calls change no call's result, and concurrent calls from many threads never exchange results.",
 ["schedules", "inputs", "histories"], "all numbers of concurrent calls from any threads, all response orders, duplicates, segmentations and stray frames",
 "Ten concurrent calls whose responses come back in whatever order one run happens to produce; no duplicates, strays, reordering or early responses.",
 ["anthunder/client/aio_client.py"],
 [("request id -> event / response maps", "anthunder/client/aio_client.py:request_mapping,response_mapping"), ("single reader per connection", "anthunder/client/aio_client.py:_recv_response")],
 state=[("request_mapping", "request id -> waiting event", "anthunder/client/aio_client.py:AioClient"), ("response_mapping", "request id -> received package", "anthunder/client/aio_client.py:AioClient")],
 observe=["values returned by invoke_sync/invoke_async/callbacks against frames a scripted peer sent"])

prop("P12", "Asyncio client: failures raise for the affected call and for no other call",
 "A call answered with a non-SUCCESS status fails with a server error naming that status, one answered by a response frame that cannot be decoded or that is not a response fails too, and one that cannot be encoded (oversized header, content that is not bytes) fails without anything being sent. No such call ever yields a value, and calls in flight or made later on the same connection complete normally.",
 ["inputs", "histories", "schedules"], "all statuses, undecodable responses and unencodable requests, mixed in any order with good calls",
 "No test sees an error response or an unencodable request.",
 ["anthunder/client/aio_client.py"],
 [("status check", "anthunder/client/aio_client.py:_recv_response, invoke"), ("error propagation from sending", "anthunder/client/aio_client.py:_send_request")],
 observe=["exceptions raised to callers", "frames and connections at a scripted peer"])

prop("P13", "Asyncio client: every call ends, and callbacks fire exactly once on success",
 "A synchronous call returns or raises by its timeout whatever the peer does (a timeout error if no response came), and when the connection carrying a call is lost or cannot be made, the call fails instead of hanging. A future from an asynchronous call resolves with the response or with an exception, never with neither once its response arrived or its connection ended; its callback is called exactly once with the response content on success and not at all on failure. Cancelling a future ends that call only.",
 ["fault_sequences", "schedules", "histories"], "all points at which the peer stays silent, closes, resets or refuses, with any calls in flight",
 "The peer always answers promptly in the tests.",
 ["anthunder/client/aio_client.py"],
 [("future.result(timeout)", "anthunder/client/aio_client.py:invoke_sync"), ("wake-up in the reader's exit path", "anthunder/client/aio_client.py:_recv_response"), ("done callback", "anthunder/client/aio_client.py:callback_wrapper")],
 observe=["outcome and timing of calls and callbacks"])

prop("P14", "Asyncio client: one shared connection per address, replaced after loss",
 "Concurrent and later calls to one address share a single live connection, including when the first calls race to open it, and calls to different addresses use different connections and go to the address their interface is mapped to. After a connection is lost the next call opens a new one and succeeds; a request whose sending is interrupted by the loss is sent again on a new connection, giving up with an error after three attempts. A caller that cancels the future of its own call leaves the connection in use for the others.",
 ["schedules", "fault_sequences"], "all interleavings of first calls, losses (close, reset) at any point and later calls, any number of addresses",
 "Tests never lose a connection and never count connections.",
 ["anthunder/client/aio_client.py", "anthunder/client/base.py"],
 [("per-address dial lock + connection map", "anthunder/client/aio_client.py:_get_connection"), ("retry", "anthunder/client/aio_client.py:_send_request._send")],
 state=[("connection_mapping", "address -> (reader task, writer)", "anthunder/client/aio_client.py:AioClient")],
 observe=["connections and frames accepted by scripted peers"])

prop("P15", "Blocking client: returns its own response or raises, in bounded time",
 "A blocking synchronous call transmits its whole request, however large, and returns exactly the content of the response for any segmentation of the response bytes. It raises a server error on a non-SUCCESS status or a foreign request id, a timeout error if the response is incomplete about one second after the timeout, and an error if the connection is refused or closes at any byte before the response is complete - it never returns partial or foreign content and never hangs.",
 ["inputs", "fault_sequences", "schedules"], "all request and response sizes, all segmentations, stalls and disconnects at every byte position, concurrent callers",
 "One small request answered in one segment is tested.",
 ["anthunder/client/client.py", "mysockpool/connection.py"],
 [("read loop with deadline", "anthunder/client/client.py:invoke_sync"), ("send", "anthunder/client/client.py:_raw_invoke, mysockpool/connection.py:send")],
 observe=["result/exception and duration of the call", "bytes received by a scripted peer"])

prop("P16", "Connection pool: bounded size, exact accounting, no double lending",
 "A connection is never lent to two borrowers at once; idle connections never exceed the free limit and connections that are idle or lent never exceed the maximum, in every interleaving of threads. The reported connection count always equals the idle plus lent connections - surplus returned connections are closed and leave the count - so that capacity is neither lost nor invented; an exhausted pool refuses with an empty-pool error. A borrowing scope of the pool manager gives its connection back exactly once however its block ends, and lets the exception through.",
 ["schedules", "histories"], "all interleavings of borrow/return by any threads, all sequences of borrow, return, peer disconnects, all limits",
 "One single-threaded sequence with one configuration is tested, with disconnects mocked away.",
 ["mysockpool/connection_pool.py", "mysockpool/pool_manager.py"],
 [("counter under lock", "mysockpool/connection_pool.py:_new_conn,get_conn,put_conn"), ("LIFO queue with capacity", "mysockpool/connection_pool.py:pool")],
 state=[("num_connections", "connections idle or lent", "mysockpool/connection_pool.py:ConnectionPool"), ("pool", "idle connections", "mysockpool/connection_pool.py:ConnectionPool")],
 observe=["get_conn/put_conn results", "num_connections", "open sockets"])

prop("P17", "Connection pool: never lends a dead connection; closing it is final",
 "A borrowed connection was not closed by the pool and, if it was idle, had not been disconnected by its peer (and had no unread data) when it was lent; such idle connections are closed and replaced. Closing a pool closes every idle connection; after that borrowing fails with a closed-pool error, returned connections are closed, and nothing is lent again.",
 ["histories", "fault_sequences"], "all sequences of borrow, return, peer disconnect, stray data and close",
 "Disconnect detection is mocked out in the pool test and close is only observed through eviction.",
 ["mysockpool/connection_pool.py", "mysockpool/utils.py", "mysockpool/_wait.py", "mysockpool/connection.py"],
 [("is_connection_dropped check at borrow", "mysockpool/connection_pool.py:get_conn"), ("pool set to None on close", "mysockpool/connection_pool.py:close")],
 observe=["borrowed sockets", "exceptions", "peer side of the sockets"])

prop("P18", "Pool manager: one pool per key, LRU-bounded, evicted pools are closed",
 "While a key's pool is retained every request for the key, from any thread, gets that same pool; at most the configured number of pools is retained, and making room evicts exactly the least recently requested one. Every evicted, replaced, deleted or cleared pool is closed exactly once and never handed out again, retained pools are never closed, and a scoped connection goes back to its pool when the scope ends, normally or by exception.",
 ["histories", "schedules"], "all sequences of requests over any keys and limits, and all interleavings of threads",
 "One fixed sequence over three keys from one thread.",
 ["mysockpool/pool_manager.py", "mysockpool/recently_used_container.py"],
 [("OrderedDict re-insertion + eviction", "mysockpool/recently_used_container.py:__getitem__,__setitem__"), ("check-and-create under lock", "mysockpool/pool_manager.py:connection_pool_from_pool_key")],
 state=[("_container", "keys in recency order", "mysockpool/recently_used_container.py:RecentlyUsedContainer")],
 observe=["returned pools", "dispose calls", "keys()"])

prop("P19", "Span ids form a tree without duplicates",
 "Within a trace grown in one process, a child span's id is its parent's id extended by the next unused number, starting at 1, and a span that follows another gets the next unused number among that span's siblings, so no two spans ever have the same id. This holds for any order of child and follow operations from any spans and threads, and every derived span keeps its trace's id and all other baggage.",
 ["histories", "schedules"], "all sequences and interleavings of child-of and follows-from operations, from fresh or received contexts",
 "Tests follow one short fixed sequence in one thread.",
 ["mytracer/_rpc_id.py", "mytracer/span_context.py", "mytracer/tracer.py", "mytracer/helpers.py"],
 [("child counter", "mytracer/_rpc_id.py:_new_child_of,_new_follows_from"), ("baggage copy", "mytracer/span_context.py:SpanContext.__init__")],
 observe=["baggage of created spans"])

prop("P20", "Trace contexts cross process boundaries unchanged",
 "Injecting a span context and extracting it yields the same trace id, span id and baggage entries, and ignores unrelated carrier entries; a carrier whose trace entries are malformed is refused with an invalid-carrier error and an unsupported format with an unsupported-format error. A call made with a span context by either client delivers exactly those entries, next to the interface, method, application and extra headers it was given, to the service's context on either listener; span operation names, tags and start times are the ones given.",
 ["inputs", "histories"], "all contexts, baggage maps, carriers and tag sets; chains of calls through clients and listeners",
 "One carrier is extracted; nothing follows a context through a call, and spans with tags are not tried.",
 ["mytracer/tracer.py", "mytracer/span_context.py", "mytracer/_rpc_id.py", "anthunder/protocol/_sofa_header.py", "anthunder/protocol/_rpc_trace_context.py"],
 [("prefix mapping", "mytracer/tracer.py:inject,extract"), ("header building", "anthunder/protocol/_sofa_header.py:build_header")],
 observe=["carriers, contexts seen by services"])

prop("P21", "Request ids and trace ids do not repeat",
 "Request ids are in 0..2^31-1, advance cyclically through the whole range and wrap to 0, so that requests made by any threads never share an id within 2^31 requests, and drawing them does not accumulate memory. Fresh trace contexts get distinct trace ids as long as fewer than 8000 are created within a millisecond.",
 ["histories", "schedules"], "all histories of draws from any starting point and any threads, including the wrap-around",
 "One id is drawn in the tests; two trace ids are compared.",
 ["anthunder/helpers/request_id.py", "mytracer/_trace_id.py", "anthunder/protocol/_request_pkg.py", "anthunder/command/heartbeat.py"],
 [("cyclic iterator", "anthunder/helpers/request_id.py"), ("timestamp + sequence + pid", "mytracer/_trace_id.py")],
 observe=["ids of requests, trace ids"])

prop("P22", "Calls are routed by static mapping first, then subscription, then default",
 "An interface resolves to its mapped address if it has one (a bare host gets the default port) and to the mesh address otherwise, and subscribing through a reachable mesh maps it to the mesh address while unsubscribing removes its mapping. An existing mapping is never overwritten, a mesh failure for one interface leaves the mapping unchanged and does not stop the others, and without a mesh both operations change nothing and never raise.",
 ["histories", "fault_sequences", "configurations"], "all sequences of static mapping, subscribe, unsubscribe with any mesh answers, over any interfaces and clients",
 "Only the default address of an unmapped interface is tested.",
 ["anthunder/client/base.py", "anthunder/helpers/immutable_dict.py", "anthunder/__init__.py"],
 [("write-once map", "anthunder/helpers/immutable_dict.py"), ("subscribe/unsubscribe/_get_address", "anthunder/client/base.py")],
 state=[("SERVICE_MAP", "interface -> address", "anthunder/__init__.py")],
 observe=["address the client resolves/connects to", "mesh HTTP requests"])

prop("P23", "Mesh registration: each operation posts once, and failure is never silent",
 "Starting a mesh client registers the application until it has succeeded once and never again, also when started from many threads, omitting empty settings; each subscribe, unsubscribe, publish and unpublish sends exactly one request with the given service data to its endpoint. An answer other than HTTP 200 with success true raises an error, and publishing or unpublishing a listener does so for exactly its registered interfaces with its own port and application name.",
 ["fault_sequences", "histories", "schedules"], "all sequences of operations, all answer kinds (status codes, success flag, malformed), concurrent startups, all registered interface sets",
 "Each operation is called once against a mock that says success; failures and listener publication are never exercised.",
 ["anthunder/mesh/mesh_client.py", "anthunder/listener/base_listener.py"],
 [("started flag under lock", "anthunder/mesh/mesh_client.py:startup"), ("answer check", "anthunder/mesh/mesh_client.py:_post"), ("publish loop", "anthunder/listener/base_listener.py:publish,unpublish")],
 state=[("_started", "application registered", "anthunder/mesh/mesh_client.py:MeshClient")],
 observe=["HTTP requests at a stub mesh", "exceptions"])

prop("P24", "End to end: a call's result is what its service returned for its argument",
 "With a real client and a real listener connected, every call that returns a value returns the bytes the addressed service produced for exactly the bytes that call passed, for any mixture of concurrent calls, clients, interfaces, payload sizes and service delays. Without faults every request is executed exactly once and every two-way call to a healthy service returns a value - except that the blocking listener serves one request per connection, so an asyncio client's further requests on that connection may fail with an error; no call observes another's data.",
 ["schedules", "inputs", "histories"], "all concurrent histories of calls between real clients and listeners of both kinds",
 "Ten equal-sized tiny calls with one fixed delay.",
 ["anthunder/client/aio_client.py", "anthunder/client/client.py", "anthunder/listener/aio_listener.py", "anthunder/listener/sock_listener.py"],
 [("request ids end to end", "clients and listeners")],
 observe=["call results against service executions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
