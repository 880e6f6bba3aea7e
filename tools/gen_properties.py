#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["include/crab/" + f for f in files],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    if len(title) > 80: print("TITLE", id, len(title))
    if d["statement"].count(". ") > 2: print("STMT", id)
    P.append(d)

# ------------------------------------------------------------------ event loop
prop("E01", "Timers fire exactly once per arming, never early, in order, and wake the loop",
 "Each arming of a timer runs its callback exactly once on its run loop, not before its due time, unless the timer is cancelled, re-armed or destroyed first, in which case the replaced arming never fires; re-arming to an earlier or a later moment takes effect exactly. The loop never sleeps past the due time of an armed timer; zero and negative delays fire at once and infinite or unrepresentably large delays never fire. Due timers that were armed once and never moved fire in order of due time, and is_set() is true exactly while a firing is outstanding.",
 ["histories", "schedules", "inputs"],
 "For every interleaving of once/once_at/cancel/destroy calls (inside and outside callbacks) on any number of timers with any delays, over any virtual-time schedule of wakeups.",
 "No existing test touches the run loop; timing behaviour depends on arbitrary operation histories and on when the kernel wakes the loop, which fixed unit tests with real clocks cannot enumerate.",
 ["network.hxx", "network.hpp", "intrusive_heap.hpp", "network_posix.hxx"],
 [("Timer::once_at / cancel with lazy postponing", "include/crab/network.hxx"), ("RunLoopBase::process_timers", "include/crab/network.hxx"), ("IntrusiveHeap", "include/crab/intrusive_heap.hpp")],
 [("moved_fire_time", "moment requested by the user", "Timer, include/crab/network.hpp"), ("actual fire time in heap", "moment the heap is ordered by (may be earlier than requested)", "Timer, include/crab/network.hpp")],
 "timer callbacks and is_set() against virtual steady_clock::now()")
prop("E02", "Cancelled or destroyed objects are silent, and may be destroyed in any callback",
 "After a timer, idle handler, watcher, signal handler, DNS resolver, UDP socket, TCP socket, buffered TCP socket or acceptor is cancelled, closed or destroyed, none of its callbacks runs for the earlier arming, connection or request, even if its event was already pending. Any such object may be cancelled, closed, reused or destroyed from inside its own or any other object's callback without memory errors, and without affecting callbacks of the other objects.",
 ["histories", "schedules"],
 "For every history of create/arm/cancel/close/reopen/destroy operations performed from inside arbitrary callbacks of arbitrary objects, with any set of events already pending.",
 "Use-after-destroy only manifests when a particular object dies while a particular other event is pending; existing tests contain no run loop at all.",
 ["network.hxx", "network_posix.hxx", "network_base.hpp", "network.hpp", "intrusive_list.hpp"],
 [("IntrusiveList of triggered callables, unlinked on cancel", "include/crab/network_base.hpp, intrusive_list.hpp"), ("RunLoop triggered-callables processing", "include/crab/network_posix.hxx")],
 [("triggered_callables", "objects with a pending event", "RunLoopBase/RunLoopImpl")],
 "user callbacks, under AddressSanitizer")
prop("E03", "Watchers deliver every cross-thread call, coalesced, and are silent after cancel",
 "Every call() of a watcher, on any thread, that starts after the watcher's last callback began is followed by at least one further callback on the loop thread that owns the watcher; callbacks never outnumber calls, run only on that thread, and see every write made before the call that caused them. After cancel() or destruction no callback runs for calls made before it, and a cancelled watcher that is called again works again.",
 ["schedules", "histories"],
 "For all interleavings of call() from any number of threads with callbacks, cancels, destruction and creation of watchers, including many watchers on one loop.",
 "Lost wakeups need a specific thread interleaving around the sleep; no existing test starts a second thread.",
 ["network.hxx", "network_posix.hxx", "network.hpp"],
 [("RunLoopLinks::add_triggered_callable / trigger_called_watchers", "include/crab/network.hxx, network_posix.hxx"), ("eventfd wakeup", "include/crab/network_posix.hxx")],
 [("fired_objects list under mutex", "watchers called but not yet delivered", "include/crab/network_posix.hxx")],
 "callbacks on the loop thread with per-call sequence numbers")
prop("E04", "Run loop cancellation always ends the run; Thread joins; one run loop per thread",
 "cancel() called on a run loop from any thread or callback, before or during run(), makes run() return after finitely many further callbacks, even if the loop is asleep with no timers, run() does not return without a cancel, and once it returned it can be run again. Exactly one run loop may exist per thread (a second construction throws) and current() is that loop. Destroying a Thread object ends its loop and joins it, and no exception or callback escapes afterwards.",
 ["schedules", "histories"],
 "For all interleavings of cancel() with loop start, sleep, wakeup and callback processing.",
 "Lost cancels require a cancel in the window between checking the quit flag and sleeping, or before run() starts; existing tests never run the loop.",
 ["network_posix.hxx", "network.hxx", "network.hpp"],
 [("RunLoop::run / cancel", "include/crab/network_posix.hxx"), ("Thread constructor and destructor", "include/crab/network.hxx, network_posix_win.hxx")],
 [("quit flag", "request to leave run()", "include/crab/network_posix.hxx")],
 "return of run(), thread join")
prop("E05", "Idle handlers run only when nothing else is ready, fairly and only while active",
 "An active idle handler's callback runs only when no timer is due and no socket, watcher or other event is ready to be delivered, and while idle handlers are active the loop keeps polling without sleeping, so that timers and socket events are still delivered. When several idle handlers are active they take turns, none running a second time before every other active one ran once; an inactive or destroyed idle handler never runs.",
 ["histories", "schedules"],
 "For every sequence of set_active/destroy/create operations on idle handlers mixed with timers, watchers and sockets becoming ready at any moment.",
 "Requires controlling when the kernel reports events; no existing test covers idle handlers.",
 ["network.hxx", "network.hpp", "network_posix.hxx"],
 [("RunLoopBase::process_idle", "include/crab/network.hxx"), ("Idle::set_active", "include/crab/network.hxx")],
 [("idle_handlers list", "active idle handlers in turn order", "RunLoopBase")],
 "idle callbacks vs pending simulated events")
# ------------------------------------------------------------------ network
prop("E06", "Loop statistics count exactly what was done, in bounded memory",
 "The counters of a run loop's statistics equal the numbers of receives, sends, datagram reads and writes and polls its objects performed and the bytes and events these transferred. Records are kept in the order pushed with times that never decrease, at most the documented number of them whatever is pushed, until cleared; printing shows each record once with its exact time and count, then clears them.",
 ["histories", "inputs", "fault_sequences"],
 "For all histories of operations, failures and records.",
 "No existing test reads the statistics; errors appear with failed or partial operations, or after very many records.",
 ["network_base.hpp", "network.hxx", "network_posix.hxx"],
 [("PerformanceStats and its updates", "include/crab/network_base.hpp, network.hxx, network_posix.hxx")],
 None, "counters vs those of the simulated kernel at every poll; records vs a reference list")
prop("N01", "TCP sockets deliver exactly the bytes accepted, in order, once",
 "The bytes that successful writes on one side of a TCP connection reported as accepted arrive at the other side's reads exactly once, in order and unaltered, for any mix of contiguous, scatter and single-byte reads and writes, any segmentation, partial writes and short reads. A read or write never reports more bytes than the kernel transferred, and after each short read or write the handler is called again once progress is possible.",
 ["inputs", "schedules", "fault_sequences"],
 "For all byte sequences, all sizes of reads and writes, all kernel segmentations, buffer-full and spurious-wakeup schedules.",
 "Depends on kernel segmentation, EAGAIN points and edge-triggered wakeups chosen by the environment; existing tests open no socket.",
 ["network_posix.hxx", "network_posix_win.hxx", "network.hpp"],
 [("TCPSocket::read_some / write_some", "include/crab/network_posix.hxx"), ("can_read/can_write edge tracking", "include/crab/network_posix.hxx")],
 [("can_read/can_write", "kernel may have data/space", "Callable, include/crab/network_base.hpp")],
 "read_some/write_some results on both ends of simulated and real connections")
prop("N02", "TCP connect, close and disconnect notifications are exact and never lost",
 "Every opened connection that becomes closed by the peer, by an error, by failed connect or by close(true) is reported to its handler exactly once with is_open() already false; a local close() without the flag is silent. Bytes that arrived before an orderly end of stream are delivered before it is reported, no data or space becoming available goes unreported to a socket that is waiting for it, and a closed socket reads and writes zero bytes. write_shutdown() on a connected socket ends the outgoing stream after all accepted bytes while incoming data continue.",
 ["histories", "schedules", "fault_sequences"],
 "For all histories of connect, accept, close, reopen, read, write, shutdown and all failure points (refused, reset, end of stream, error from any socket call).",
 "Close/EOF/reset races with pending events are chosen by the kernel; existing tests open no socket.",
 ["network_posix.hxx", "network.hxx", "network.hpp"],
 [("TCPSocket::connect/close/write_shutdown", "include/crab/network_posix.hxx")],
 [("fd", "open socket", "TCPSocket")],
 "handler calls and is_open() vs the simulated kernel's connection state")
prop("N03", "Acceptors hand over each connection exactly once and survive descriptor shortage",
 "Every connection completed by the kernel on a listening address is handed to exactly one successful accept, with the peer's true address, and a handler that leaves connections unaccepted can take them later. Running out of file descriptors neither loses the acceptor nor spins the loop: accepting resumes within about a second after descriptors become available. Constructing an acceptor on an unusable address throws and leaks nothing.",
 ["histories", "fault_sequences", "schedules"],
 "For all arrival patterns, accept throttling by the handler, and descriptor-shortage faults.",
 "Needs descriptor exhaustion and arrival bursts at particular moments; no existing test.",
 ["network_posix.hxx", "network.hpp"],
 [("TCPAcceptor::can_accept / fd_limit_timer", "include/crab/network_posix.hxx")],
 None, "accepted sockets vs connections created in the simulated kernel")
prop("N04", "UDP transmitters and receivers preserve datagram boundaries and content",
 "Each datagram handed to write_datagram that is reported as sent leaves as one datagram with exactly those bytes to the intended destination, unless the kernel reports an error for it, and each datagram delivered by the kernel is returned once, whole or reported truncated by buffer size, with its sender's address. The handler is called again whenever datagrams become readable, or the socket becomes writable after a refused write, and errors from the network do not silence the socket.",
 ["inputs", "schedules", "fault_sequences"],
 "For all datagram sizes, arrival patterns, buffer-full and network-error events.",
 "No existing test opens a UDP socket; loss of wakeups after an error needs a specific fault.",
 ["network_posix.hxx", "network.hpp"],
 [("UDPTransmitter/UDPReceiver", "include/crab/network_posix.hxx")],
 None, "datagrams in the simulated and real kernel")
prop("N05", "A name resolution calls back once with its own answer, or never if cancelled",
 "Each resolve() calls its handler exactly once, on the loop that started it, with the addresses of the requested name and port restricted to the requested address families, or with an empty list if resolution fails. After cancel(), destruction or a further resolve() the earlier request is never reported, and neither handlers that start new resolutions nor loop shutdown with requests outstanding cause memory errors, races or hangs.",
 ["schedules", "histories", "fault_sequences"],
 "For all interleavings of resolve/cancel/destroy/thread exit with the resolver's worker thread, and all resolver outcomes.",
 "Needs the background worker to finish in specific windows; no existing test resolves names.",
 ["network.hxx", "network_posix_win.hxx", "network.hpp"],
 [("DNSResolver / DNSWorker", "include/crab/network.hxx, network_posix_win.hxx")],
 [("work queue and result list", "outstanding requests", "DNSWorker")],
 "handler calls vs intercepted resolver")
prop("N06", "Signal handlers turn each raised signal into a callback on the loop",
 "While a signal handler object for terminating signals exists, raising one of them does not kill the process but causes at least one callback on the loop thread after the raise, and no callback occurs without a raise. After its destruction nothing is called for earlier raises.",
 ["schedules", "histories"],
 "For all moments at which signals arrive relative to loop sleep, callbacks and object lifetime.",
 "Signals arrive at arbitrary moments; no existing test raises one.",
 ["network_posix.hxx", "network.hpp"],
 [("Signal", "include/crab/network_posix.hxx")],
 None, "callbacks after kill() on a child process of the harness")
prop("N07", "Addresses parse and print consistently and reject malformed text",
 "Parsing the printed form of any IPv4 or IPv6 address and port, or of its separate address and port, yields an equal address; an address printed is the standard numeric form of its bytes. Malformed text, including malformed or out-of-range ports, is rejected by a false result from the non-throwing parser and an exception from the throwing constructors, never accepted as a different address. The multicast and local classification depends only on family and address bytes.",
 ["inputs"],
 "For all addresses, ports and arbitrary text.",
 "No existing test constructs an address from text; the claim is over all texts and addresses.",
 ["network_posix.hxx", "network_posix_win.hxx", "network.hxx", "network.hpp"],
 [("Address::parse / get_address / get_port", "include/crab/network.hxx, network_posix_win.hxx")],
 None, "Address API vs inet_ntop/inet_pton reference")
prop("N08", "Buffered sockets send everything in order, then shut down; never lose or reorder",
 "Everything written to a buffered TCP socket in any mix of copies, moved strings and pieces arrives in call order without loss or duplication while the connection lives, and the reported amount of pending data equals bytes written minus bytes handed to the kernel. Pending data keep being sent whenever the kernel has space, without further calls by the user, and the handler is called as they drain. After write_shutdown() all pending data are sent before the stream ends, later writes are ignored, and if the peer does not finish closing the connection the socket is closed and reported within the documented timeout after the end of the stream.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "For all sequences of writes and shutdowns, kernel buffer sizes, peer behaviour and closing order.",
 "Needs partial writes at arbitrary byte positions and 15-second timeouts; no existing test.",
 ["http/connection.hxx", "http/connection.hpp"],
 [("BufferedTCPSocket::write / write_shutdown / sock_handler", "include/crab/http/connection.hxx")],
 [("data_to_write deque and total_buffer_size", "pending output", "BufferedTCPSocket")],
 "peer's received bytes in the simulated kernel")
prop("N09", "Socket settings and multicast membership take effect",
 "Buffer sizes, TCP delay and address or port reuse requested in Settings are applied to the socket (for TCP the sizes before it connects or listens, so that they shape the window, and also on every accepted socket), and what was not requested keeps the system default. A UDP receiver on a multicast group is a member of exactly that group on the requested adapter until destroyed, a UDP transmitter sends to its group through the requested adapter with the requested TTL, and connections report the actual addresses of both ends. A constructor or connect() throws or fails exactly when the system refuses its address, adapter or options, leaving no descriptor or membership behind.",
 ["inputs", "histories", "fault_sequences"],
 "For all settings, addresses, adapters and orders of creation and destruction.",
 "No existing test opens a socket with settings; wrong or lost options show only as performance or reachability problems.",
 ["network_posix.hxx", "network.hpp"],
 [("TCPSocket::connect, TCPAcceptor, UDPTransmitter, UDPReceiver", "include/crab/network_posix.hxx")],
 None, "options and memberships read back from the kernel, vs a control socket")
# ------------------------------------------------------------------ streams
prop("S01", "Stream adaptors conserve bytes and report exact counts",
 "Reading from, writing to and copying between memory, string, vector, combined and circular-buffer streams transfers exactly the bytes a single flat sequence would, for any split into calls: results report the exact count moved, requested maximum counts are never exceeded, positions advance by that count, and the bytes remaining plus bytes moved equal the original. The all-or-nothing helpers move everything or throw, and never touch memory outside the caller's ranges.",
 ["inputs", "programs"],
 "For all contents, sizes, chunkings and compositions of streams, including sources and sinks that accept only part of the data.",
 "Existing tests use no streams directly; the claim is over all compositions and splits.",
 ["streams.hpp", "streams.hxx"],
 [("IStream/OStream adaptors", "include/crab/streams.hpp, streams.hxx")],
 None, "stream API vs flat byte-vector model")
prop("S02", "The circular buffer behaves as a bounded FIFO of bytes",
 "For any sequence of operations the circular buffer is indistinguishable from a bounded first-in first-out byte queue of its capacity: size, free space, contents, the contiguous readable and writable windows, and results of bulk transfers all agree with the queue. Bulk transfers move as much as both sides allow, never overwrite unread bytes and never expose bytes that were not written.",
 ["histories", "inputs"],
 "For all capacities, wrap positions and operation sequences.",
 "Wrap-around states depend on operation history; no existing test drives it.",
 ["streams.hpp", "streams.hxx"],
 [("Buffer", "include/crab/streams.hpp, streams.hxx")],
 [("read_pos/write_pos", "positions modulo capacity, doubled to tell full from empty", "Buffer")],
 "Buffer API vs std::deque model")
prop("S03", "Intrusive heap and list agree with ordinary containers under any operations",
 "The intrusive heap always exposes an element minimal under its order, contains exactly the elements inserted and not removed, and supports repeated insertion and erasure of any element at any time. The intrusive list keeps insertion order and contains exactly the linked elements, with unlinking of any element, including by its destruction, from any position.",
 ["histories"],
 "For all sequences of insert, erase, pop and element destruction.",
 "Structural corruption needs particular shapes; existing tests only benchmark.",
 ["intrusive_heap.hpp", "intrusive_list.hpp"],
 [("IntrusiveHeap", "include/crab/intrusive_heap.hpp"), ("IntrusiveList/IntrusiveNode", "include/crab/intrusive_list.hpp")],
 [("heap_index", "position of element in heap array", "include/crab/intrusive_heap.hpp")],
 "container API vs std::multiset and std::list models")
# ------------------------------------------------------------------ http
prop("H01", "Request parsing is independent of chunking and faithful to the message grammar",
 "Every syntactically valid HTTP/1.x request head, with CRLF or bare LF line ends, is accepted with exactly its method, path, query, version and header values (names lower-cased, folded and list values preserved) and interpreted connection, transfer-encoding, content-length, upgrade and authorization fields. The outcome (accepted fields, bytes consumed, or rejection) does not depend on how the bytes are split into reads. Malformed heads, repeated content lengths, and transfer codings or connection values the library does not support are rejected rather than misread.",
 ["inputs"],
 "For all request heads and all splits into reads, valid, mutated and hostile.",
 "Existing tests feed a fixed list of messages in a few ways; framing and smuggling errors need unusual inputs and split points.",
 ["http/request_parser.hxx", "http/request_parser.hpp", "http/types.hxx"],
 [("RequestParser::consume", "include/crab/http/request_parser.hxx")],
 [("state", "position in grammar", "RequestParser")],
 "parser output vs independent grammar generator")
prop("H02", "Response parsing is independent of chunking and faithful to the message grammar",
 "Every syntactically valid HTTP/1.x response head, with CRLF or bare LF line ends, is accepted with exactly its version, status code, reason text and header values and interpreted connection, transfer-encoding, content-length, content-type, date and upgrade fields, independent of how its bytes are split into reads. Malformed status lines, headers and conflicting content lengths are rejected.",
 ["inputs"],
 "For all response heads and all splits into reads.",
 "Existing tests feed a fixed list of messages.",
 ["http/response_parser.hxx", "http/response_parser.hpp", "http/types.hxx"],
 [("ResponseParser::consume", "include/crab/http/response_parser.hxx")],
 [("state", "position in grammar", "ResponseParser")],
 "parser output vs independent grammar generator")
prop("H03", "Body framing yields exactly the sent body and never reads past its end",
 "A body framed by content length or by chunked encoding is decoded to exactly the payload sent, for any chunk sizes, chunk extensions, trailers and splits into reads, and the decoder consumes exactly the bytes of that body, leaving the following bytes for the next message. Malformed or overflowing chunk sizes and broken chunk terminators are rejected, never decoded to a wrong body.",
 ["inputs"],
 "For all payloads, chunkings, hexadecimal sizes up to overflow, and read splits.",
 "Existing tests only check that a corpus of bodies does not crash; wrong framing (request smuggling) needs exact oracles on split points.",
 ["http/request_parser.hxx", "http/request_parser.hpp"],
 [("BodyParser", "include/crab/http/request_parser.hxx")],
 [("remaining counters and chunk state", "bytes left in current chunk", "BodyParser")],
 "decoded bodies and consumed counts vs generator")
prop("H04", "Serialized request and response heads parse back to the same message",
 "Any request or response header that can legally be sent, once serialized and parsed by this library, yields the same method or status, path, query, version, host, framing, connection behaviour, content type, date, authorization, upgrade fields and user headers. Serialized text is a single well-formed head terminated by one empty line, whatever combination of fields is set. Ready-made requests and responses carry exactly the given status, body and its length, and a message counts as a WebSocket upgrade only if it is a complete one.",
 ["inputs"],
 "For all combinations of header fields.",
 "Existing tests parse fixed text and never serialize.",
 ["http/types.hxx", "http/types.hpp", "http/request_parser.hxx", "http/response_parser.hxx"],
 [("RequestHeader::to_string / ResponseHeader::to_string", "include/crab/http/types.hxx")],
 None, "to_string output vs parser output")
prop("H05", "Query strings and cookies parse into exactly the pairs they encode",
 "Percent-encoding arbitrary byte-string pairs and joining them as a query string, then parsing in any split, yields the same pairs (later duplicates reported consistently by all interfaces); unencoded plus signs decode to spaces and invalid percent sequences are kept literally without disturbing neighbouring pairs. Cookie headers parse into exactly their name-value pairs irrespective of optional spaces.",
 ["inputs"],
 "For all key-value lists, encodings and malformed percent sequences.",
 "Existing tests use a fixed list of strings; loss of pairs occurs only when a malformed escape meets a separator.",
 ["http/query_parser.hxx", "http/query_parser.hpp"],
 [("QueryParser", "include/crab/http/query_parser.hxx"), ("CookieParser", "include/crab/http/query_parser.hxx")],
 None, "parsed pairs vs generator and reference decoder")
prop("H06", "Targets and percent coding round-trip; dot segments never escape the root",
 "Percent-encoding then decoding any byte string is the identity, and setting a request's target then reading it back gives an equivalent target whether or not it has a query. Splitting an absolute or relative URI yields components which reassemble to it, dot segments of an absolute URI are resolved as RFC 3986 says and never climb above the root, and the path of an accepted request is its target percent-decoded.",
 ["inputs"],
 "For all byte strings, paths and URIs.",
 "Path normalisation is security relevant over all encodings of dots and slashes; existing tests use a fixed list.",
 ["http/types.hxx", "http/request_parser.hxx", "http/query_parser.hxx"],
 [("URI parsing and normalisation", "include/crab/http/request_parser.hxx, query_parser.hxx"), ("RequestHeader::get_uri/set_uri", "include/crab/http/types.hxx")],
 None, "API vs reference normaliser")
prop("H07", "WebSocket frames encode and decode every message exactly, in any split",
 "Any sequence of text, binary, fragmented and control messages of any length, with either masking setting, serialized by this library and parsed in any split, yields the same opcodes, payloads, lengths and final flags, with shortest-form lengths on the wire; unmasking is correct at every payload offset. Frames using reserved bits, unknown opcodes, or lengths above 63 bits are rejected.",
 ["inputs"],
 "For all frame sequences, payload lengths across all three length encodings, masks and read splits.",
 "Existing tests cover only the masking helper.",
 ["http/web_message_parser.hxx", "http/web_message_parser.hpp", "util.hpp", "util.hxx"],
 [("WebMessageHeaderParser / WebMessageBodyParser", "include/crab/http/web_message_parser.hxx"), ("mask_data", "include/crab/http/web_message_parser.hxx")],
 None, "frames vs independent RFC 6455 codec")
prop("H08", "WebSocket servers deliver messages exactly once, answer pings and close once",
 "After a successful upgrade the server-side user receives every complete message a conforming peer sent, in order, once, unmasked and reassembled from fragments, with control frames allowed between fragments; every ping is answered by a pong with the same payload, and a connection on which the server has written nothing for about 45 seconds is probed by a ping. The end of the connection, whether by close frame, protocol violation or disconnect, is reported to the user exactly once and nothing is delivered after it, and what the user sends arrives at the peer as valid unmasked frames in order.",
 ["histories", "inputs", "schedules"],
 "For all message sequences, fragmentations, control frame placements, network segmentations and disconnect points.",
 "Needs a live connection with arbitrary segmentation; no existing test opens one.",
 ["http/connection.hxx", "http/server.hxx", "http/web_message_parser.hxx"],
 [("ServerConnection web-socket states", "include/crab/http/connection.hxx"), ("Server web message dispatch", "include/crab/http/server.hxx")],
 [("web_message", "message being reassembled", "ServerConnection")],
 "messages seen by user vs raw peer")
prop("H09", "WebSocket clients deliver messages exactly once, mask their own and close once",
 "A client that connects by WebSocket reports the upgrade only for a correct handshake answer, then receives every complete message in order, once, reassembled from fragments, and its own messages arrive as valid masked frames in order. Pings are answered with the same payload, a rejected or failed handshake and the end of an established connection are reported, and afterwards, or after closing it at any moment, the client can be reused for a new connection unaffected by the earlier one.",
 ["histories", "inputs", "schedules"],
 "For all message sequences, fragmentations, handshake answers, segmentations, disconnect points and reuse sequences.",
 "Needs a live connection with arbitrary segmentation; no existing test opens one.",
 ["http/connection.hxx", "http/connection.hpp", "http/web_message_parser.hxx"],
 [("ClientConnection", "include/crab/http/connection.hxx")],
 [("web_message", "message being reassembled", "ClientConnection")],
 "messages seen by user vs raw peer")
prop("H10", "The HTTP server pairs every request with its response, in order",
 "On each connection the server hands every well-formed request, pipelined or not, to the user exactly once, in order, with exact header and body, and the peer receives exactly the responses the user wrote, in request order and correctly framed, including responses postponed and written later. The connection is kept open or closed after each response as version, headers and response demand, all response bytes being sent before closing, and connections never receive each other's data.",
 ["histories", "inputs", "schedules"],
 "For all request sequences, pipelining, segmentations, handler behaviours (immediate, postponed, streamed) and numbers of connections.",
 "No existing test runs a server; mix-ups need specific interleavings of connections and postponed responses.",
 ["http/server.hxx", "http/server.hpp", "http/connection.hxx"],
 [("Server::on_client_handle_request", "include/crab/http/server.hxx"), ("ServerConnection state machine", "include/crab/http/connection.hxx")],
 [("connection state", "reading, awaiting response, writing body", "ServerConnection")],
 "requests seen by handlers and responses seen by raw peers")
prop("H11", "Server failures map to the right response or close, and disconnects notify once",
 "A handler that throws before starting its response yields an error response for that request only, authorization errors yield a 401 response with its challenge, malformed requests close that connection, and the loop, server and other connections continue. When a peer disconnects while its request is postponed or its response streamed, the registered disconnect handler is called exactly once, and never after the response was completed.",
 ["histories", "fault_sequences", "inputs"],
 "For all handler outcomes, malformed inputs and disconnect points.",
 "Failure paths need a running server and faults at specific points; no existing test.",
 ["http/server.hxx", "http/connection.hxx", "http/types.hxx"],
 [("exception mapping in Server", "include/crab/http/server.hxx"), ("postponed response disconnect handlers", "include/crab/http/server.hxx")],
 None, "responses and disconnect callbacks vs raw peers")
prop("H12", "A server keeps its connection limit and admits waiting peers as others leave",
 "The number of connections a server serves simultaneously never exceeds its configured maximum (it may hold one further accepted but unserved connection), and a waiting peer is admitted and served once another connection closes. Idle or keep-alive connections that close always free their place.",
 ["histories", "schedules"],
 "For all limits, arrival and departure sequences.",
 "Needs many connections arriving and leaving; no existing test.",
 ["http/server.hxx", "http/server.hpp"],
 [("Server::accept_all with max_connections", "include/crab/http/server.hxx")],
 None, "open simulated descriptors vs limit")
prop("H13", "Streamed response and request bodies are framed exactly as announced",
 "A body streamed in any number of pieces by a server or client user, with or without announced length, reaches the peer as exactly the concatenation of the pieces with correct framing (exact length, or chunks ended by a last chunk), pieces being pulled as the connection drains. Writing more or fewer bytes than announced is never turned into a mis-framed message that the peer would accept as complete.",
 ["inputs", "schedules", "histories"],
 "For all piece sizes and timings, peers reading slowly, and announced lengths.",
 "Needs slow peers and partial writes; no existing test.",
 ["http/connection.hxx", "http/server.hxx"],
 [("ServerConnection::write body / write_last_chunk", "include/crab/http/connection.hxx"), ("Client streaming interface", "include/crab/http/server.hxx")],
 [("body_position/body_content_length", "bytes of announced body written", "ServerConnection")],
 "raw peer's decoding of the response")
prop("H14", "A client request has exactly one outcome: response, error, or none if cancelled",
 "A simple client request calls exactly one of its response and error handlers exactly once, the response only when a complete well-formed response was received, the error on resolution failure, connection failure, malformed response or premature end; and it does so as soon as the exchange ends either way, for malformed responses within the documented 15 second shutdown timeout. After cancel or destruction neither is called, and the object can be reused for further requests, over the same connection when it is kept alive.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "For all server behaviours, failure points, timeouts and reuse sequences.",
 "Needs a peer failing at every point; no existing test performs a client request.",
 ["http/client_request.hxx", "http/client_request.hpp", "http/connection.hxx"],
 [("ClientRequestSimple", "include/crab/http/client_request.hxx"), ("ClientConnection", "include/crab/http/connection.hxx")],
 None, "handler calls vs raw server peer")
# ------------------------------------------------------------------ codecs, util
prop("C01", "Base64 and hexadecimal coding round-trip and reject malformed input",
 "Encoding any bytes to base64 or hexadecimal and decoding returns those bytes, and the encoding equals the standard one with padding. Text that is not a valid encoding is rejected without output beyond the caller's buffer, and decoding into a buffer of given size never writes past it.",
 ["inputs"], "For all byte strings, all texts and all output buffer sizes.",
 "Existing tests do not decode arbitrary or malformed text.",
 ["crypto/base64.hxx", "crypto/base64.hpp", "util.hxx", "util.hpp"],
 [("base64::encode/decode", "include/crab/crypto/base64.hxx"), ("to_hex/from_hex", "include/crab/util.hxx")],
 None, "API vs reference codec")
prop("C02", "Digests and checksums equal the standard functions for any input in any chunking",
 "MD5, SHA-1, CRC-32 and CRC-32C of any byte sequence equal the published functions, however the sequence is split into updates, at any length and alignment.",
 ["inputs"], "For all messages, chunkings and alignments.",
 "Existing tests check a few digests; CRC functions are untested.",
 ["crypto/md5.hxx", "crypto/sha1.hxx", "crypto/crc32.hxx"],
 [("MD5, SHA1, crc32", "include/crab/crypto/*.hxx")],
 None, "API vs independent implementations")
prop("C03", "UTF-8 validation accepts exactly well-formed UTF-8",
 "The UTF-8 checker accepts a byte sequence exactly when it is well-formed UTF-8: no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes or truncated tails, anywhere in a text of any length.",
 ["inputs"], "For all byte sequences.",
 "No existing test; the claim is over all sequences.",
 ["util.hxx", "util.hpp"],
 [("utf8 validation", "include/crab/util.hxx")],
 None, "validator vs reference decoder")
prop("C04", "Integer conversions and checked arithmetic are exact or fail, never wrap",
 "Converting between integer types and parsing integers from text returns the mathematically exact value or throws out-of-range or invalid-argument; saturating or checked arithmetic returns the exact result or reports overflow. No input causes undefined behaviour.",
 ["inputs"], "For all values of all integer types and all texts.",
 "Existing tests cover boundary lists for some type pairs; the claim is over all pairs and texts.",
 ["integer_cast.hpp"],
 [("integer_cast / IntegerSaver and checked math", "include/crab/integer_cast.hpp")],
 None, "API vs 128-bit reference arithmetic")
prop("C05", "Seeded random generators are reproducible and stay in their documented ranges",
 "A random generator created from a given seed produces the published PCG32 sequence for it on every run, and byte, integer and string requests of any size are filled completely from it without touching anything outside the requested range. Printable strings have the requested length and use only latin letters and digits, all equally likely, and fractional values lie in [0, 1).",
 ["inputs", "histories"], "For all seeds and request sequences.",
 "No existing test checks determinism.",
 ["util.hxx", "util.hpp"],
 [("Random", "include/crab/util.hxx")],
 None, "generator outputs vs reference PCG")
prop("C06", "Substitutes for optional and string_view and small helpers match the standard",
 "Before C++17 the library's optional and string_view behave as the standard ones do where they offer the same operation: an optional has a value exactly when it was last given one, copies and moves carry value and emptiness, and value() throws exactly when empty; a string_view is exactly the given characters, any of which may be zero, and substrings, trimming and comparison for equality with strings follow from that. Rotation by any count and zeroing of any range do exactly that, and a scope guard runs its function exactly once, at the end of its scope, however that is left.",
 ["inputs", "histories"], "For all values, histories of operations and texts.",
 "No existing test uses them directly; a defect shows only for special histories, such as reuse after emptiness, or texts with zeros.",
 ["util.hpp", "util.hxx"],
 [("optional, string_view, rol, memzero, scope_exit", "include/crab/util.hpp, util.hxx")],
 None, "API vs reference values, and vs the same test over std in C++17")
# ------------------------------------------------------------------ memory etc.
prop("M01", "No network bytes cause memory errors, undefined behaviour or process termination",
 "For any bytes received on HTTP, WebSocket or buffered connections, in any segmentation and with any faults, servers and clients neither access memory invalidly nor execute undefined behaviour nor terminate or hang the process; the worst outcome is an error for that connection. Memory held for one connection's message heads and unanswered pipelined requests stays within the parsers' limits, whatever the peer sends, and other connections go on working.",
 ["inputs", "fault_sequences", "schedules"],
 "For all byte streams and faults.",
 "Existing tests feed a small corpus to the parsers only, without sanitizers or live connections.",
 ["http/connection.hxx", "http/server.hxx", "http/request_parser.hxx", "http/response_parser.hxx", "http/web_message_parser.hxx"],
 [("parsers and connection state machines", "include/crab/http/*.hxx")],
 None, "sanitizers and allocation accounting around live connections")
prop("M02", "Documented cross-thread use is free of data races and deadlocks",
 "Programs that use one run loop per thread and cross threads only through watchers, run loop cancel, threads and name resolution contain no data race and no deadlock inside the library.",
 ["schedules", "programs"],
 "For all thread interleavings of such programs.",
 "Existing tests are single threaded.",
 ["network.hxx", "network_posix.hxx", "network_posix_win.hxx"],
 [("RunLoopLinks mutex, DNSWorker, Watcher::call", "include/crab/network.hxx, network_posix.hxx")],
 None, "ThreadSanitizer reports")
prop("M03", "Descriptors and memory are all released, whatever the history",
 "After all library objects of a program are destroyed, every file descriptor the library opened has been closed exactly once and all memory it allocated is released, after any history of successful, failed and aborted operations, and no descriptor is used after it was closed. While running, closed connections hold no descriptors.",
 ["histories", "fault_sequences"],
 "For all histories and all failures of system calls.",
 "Existing tests create no descriptors.",
 ["network_posix.hxx", "network_posix_win.hxx", "network.hxx", "http/server.hxx"],
 [("FileDescriptor ownership", "include/crab/network_posix.hxx")],
 [("fd", "owned descriptor", "FileDescriptor")],
 "descriptor accounting in the simulated kernel, allocator statistics")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
