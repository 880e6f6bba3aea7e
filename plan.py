"""Which monitored workloads decide which property. q/t: cases per shard (quick/thorough), 8 shards per job."""
WRAPS = ["socket", "setsockopt", "getsockopt", "bind", "listen", "connect", "accept4", "accept", "recv", "recvmsg", "recvfrom", "recvmmsg",
         "send", "sendmsg", "sendto", "sendmmsg", "read", "write", "readv", "writev", "close", "shutdown", "fcntl", "fcntl64", "ioctl",
         "epoll_create1", "epoll_create", "epoll_ctl", "epoll_wait", "epoll_pwait", "eventfd", "eventfd_read", "eventfd_write",
         "getsockname", "getpeername", "_ZNSt6chrono3_V212steady_clock3nowEv", "getaddrinfo", "freeaddrinfo"]
HARNESSES = {
    "codec": dict(src=["h_codec.cpp"]),
    "streams": dict(src=["h_streams.cpp"]),
    "heads": dict(src=["h_heads.cpp"]),
    "httpcodec": dict(src=["h_httpcodec.cpp"]),
    "sock": dict(src=["h_sock.cpp", "sim.cpp"], sim=True),
    "httpsrv": dict(src=["h_httpsrv.cpp", "sim.cpp"], sim=True),
    "httpcli": dict(src=["h_httpcli.cpp", "sim.cpp"], sim=True),
    "hostile": dict(src=["h_hostile.cpp", "sim.cpp"], sim=True),
    "loop": dict(src=["h_loop.cpp", "sim.cpp"], sim=True),
    "opts": dict(src=["h_opts.cpp"]),
    "threads": dict(src=["h_threads.cpp"], wraps=["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_signal", "eventfd_write", "eventfd_read", "read", "write", "epoll_wait", "getaddrinfo", "freeaddrinfo", "_ZNSt6chrono3_V212steady_clock3nowEv"]),
}
def J(h, mode, q, t=None, **kw):
    d = dict(h=h, mode=mode, q=q, **kw)
    d["t"] = t if t is not None else q * 15
    return d
PLAN = {
    "C01": dict(jobs=[J("codec", "base64", 6000)], need=["base64_roundtrips", "base64_invalid_texts", "base64_wrong_size", "hex_texts"],
                rule="a case = one random byte string plus one mutated/arbitrary text, encoded/decoded through every API into exact-size heap buffers; every case is non-trivial; distinct by input hash"),
    "C02": dict(jobs=[J("codec", "digest", 2500), J("codec", "digest", 500, san="asansse"), J("codec", "digestbig", 2, 4)], need=["digests", "big_digests"],
                rule="a case = one message and one split into updates, hashed by all four functions against independent references, or one digest of zeros longer than 2^29 or 2^32 bytes; distinct by message and split"),
    "C03": dict(jobs=[J("codec", "utf8", 5000), J("codec", "utf8x", 12, 60)], need=["utf8_valid", "utf8_invalid", "utf8_enumerated", "utf8_runs", "utf8_char_interrupted"],
                rule="utf8: a case = 40 texts built from boundary code points or from uniform runs of word and vector lengths, mutated, cut, pasted and truncated, at any alignment; utf8x: a case = every 1..4-byte sequence over 26 boundary bytes with one first byte; distinct by input hash"),
    "C04": dict(jobs=[J("codec", "integer", 900)], need=["casts_fit", "casts_out_of_range", "texts_valid", "texts_invalid", "math_overflow", "fcasts_fit"],
                rule="a case = for each of 8 integer types: casts from 8 types, 6 texts, 3 floats, 4 operand pairs vs 128-bit arithmetic; distinct by operands"),
    "C05": dict(jobs=[J("codec", "random", 3000)], need=["random_requests", "random_distribution_checks"],
                rule="a case = one seed and 20 requests of random kinds against reference PCG32; distinct by request history"),
    "C06": dict(jobs=[J("codec", "vocab", 2500), J("codec", "vocab", 400, san="asan17")], need=["optional_ops", "optional_throws", "views_equal", "views_different", "view_throws", "scope_exits"],
                rule="a case = up to 180 operations on optionals of three types vs a model, 12 texts viewed, cut and compared vs std::string, and one use of each small helper; distinct by operation history",),
    "S01": dict(jobs=[J("streams", "finite", 6000)], need=["stream_steps", "write_to_calls", "short_reads_thrown", "owned_cleared", "owned_moved"],
                rule="a case = one stream built from memory/vector/string/circular/combined parts and up to 40 random reads and copies into partial sinks, compared with a flat byte sequence; non-trivial when the stream is not empty; distinct by operation history"),
    "S02": dict(jobs=[J("streams", "buffer", 6000)], need=["buffer_ops", "buffers_wrapped"],
                rule="a case = one circular buffer of random capacity under 60 random operations vs a deque; non-trivial when capacity > 0; distinct by operation history"),
    "S03": dict(jobs=[J("streams", "heap", 2500), J("streams", "list", 2500)], need=["heap_ops", "list_ops"],
                rule="a case = 150 heap or 120 list operations vs multiset/list models with full structure comparison after each; distinct by operation history"),
    "H01": dict(jobs=[J("heads", "request", 4000)], need=["heads_valid", "heads_invalid"],
                rule="a case = 6 generated request heads (40 percent mutated), each parsed whole, by byte, in random pieces and through the circular buffer, compared with a line-based reference parser; distinct by outcomes and end positions"),
    "H02": dict(jobs=[J("heads", "response", 4000)], need=["heads_valid", "heads_invalid"],
                rule="a case = 6 generated response heads (40 percent mutated), each parsed in four splits and compared with a line-based reference parser; distinct by outcomes and end positions"),
    "H03": dict(jobs=[J("httpcodec", "body", 3000)], need=["bodies_by_length", "bodies_chunked", "chunked_invalid", "limits", "chunk_sizes_huge"],
                rule="a case = 4 bodies framed by length or chunks (with extensions, trailers, line-end styles, mutations), decoded in four splits vs a reference decoder; distinct by outcomes and consumed counts"),
    "H04": dict(jobs=[J("heads", "serialize", 5000)], need=["requests_serialized", "responses_serialized", "simple_responses", "upgrades"],
                rule="a case = 5 random request/response headers serialized, parsed back by the library and by the reference parser; distinct by consumed counts"),
    "H05": dict(jobs=[J("httpcodec", "query", 5000)], need=["queries_encoded", "queries_arbitrary", "cookies"],
                rule="a case = 8 query strings and cookie headers (encoded pairs and arbitrary text) through every interface and split vs reference decoders; distinct by resulting pairs"),
    "H06": dict(jobs=[J("httpcodec", "uri", 3000)], need=["codings", "targets", "uris"],
                rule="a case = 8 byte strings coded, 8 targets set and read, 8 absolute URIs split, resolved and reassembled vs RFC 3986 references; distinct by resulting paths"),
    "H07": dict(jobs=[J("httpcodec", "frames", 3000)], need=["frames", "masks", "headers_valid", "headers_invalid"],
                rule="a case = a run of frames encoded, compared with a reference encoding, parsed in four splits, plus 12 arbitrary headers; distinct by frame sizes and opcodes"),
    "E01": dict(jobs=[J("loop", "timers", 400)], need=["timer_fires", "waits_checked", "timers_moved_earlier", "timers_moved_later", "slow_callbacks"],
                rule="a case = 1..40 timers under 20..140 arm/move/cancel/destroy operations from callbacks and external wakeups in virtual time; distinct by operation and firing history"),
    "E02": dict(jobs=[J("loop", "zoo", 400)], need=["destroyed_in_own_callback", "destroyed_in_other_callback", "callbacks", "disconnects"],
                rule="a case = up to 25 live objects of 8 kinds with network peers, operated on, cancelled, closed and destroyed from each other's callbacks; distinct by event history"),
    "E05": dict(jobs=[J("loop", "idle", 400)], need=["idle_runs", "other_callbacks", "idle_activated", "idle_deactivated"],
                rule="a case = 1..6 idle handlers with watchers, timers and datagrams becoming ready at random moments; distinct by callback order"),
    "E06": dict(jobs=[J("sock", "stats", 1000, 12000)], need=["stats_compared", "stats_records", "stats_dropped", "stats_printed", "stats_cleared", "bytes_read", "bytes_written", "receives", "sends", "sends_refused", "faults_injected"],
                rule="a case = a list of up to 100007 records against a reference list, printed and parsed, then one case of N01, N03, N04 or N08 during which the statistics are compared with the calls seen by the simulated kernel at every poll; distinct by event history"),
    "N01": dict(jobs=[J("sock", "tcp", 1500, 20000)], need=["wrapped_buffers", "gathers_many", "bytes_read", "bytes_written", "peer_bytes", "accepted", "connects", "sleeps_checked"],
                rule="a case = up to 12 sockets, connected to raw peers and to each other, under 40..240 reads, writes, shutdowns, closes and reconnects of random sizes while the simulated kernel chooses segmentation, buffer sizes, wakeups and faults; every byte carries its position; distinct by event history"),
    "N02": dict(jobs=[J("sock", "tcp", 1500, 20000)], need=["closes_reported", "closed_silently", "closed_with_event", "connect_failed", "write_shutdowns", "faults_injected", "sleeps_checked"],
                rule="a case = as for N01; notifications are compared with the state of each connection at every callback and at every moment the loop goes to sleep; distinct by event history"),
    "N03": dict(jobs=[J("sock", "acceptor", 1500, 20000)], need=["accepted", "shortage_waits", "accept_emfile", "released", "faults_injected"],
                rule="a case = one acceptor under bursts of arrivals, throttled accepting, descriptor shortage and errors from accept(); distinct by event history"),
    "N04": dict(jobs=[J("sock", "udp", 1200, 15000)], need=["sends", "receives", "sends_refused", "udp_errors", "sleeps_checked"],
                rule="a case = up to 8 UDP sockets sending to each other and to raw peers with full buffers, network errors and datagrams of 0..65507 bytes; distinct by event history"),
    "N08": dict(jobs=[J("sock", "buffered", 1200, 15000)], need=["writes", "peer_bytes", "write_shutdowns", "orderly_shutdowns", "shutdown_timeouts", "sleeps_checked"],
                rule="a case = up to 8 buffered sockets under 40..190 writes of every kind, shutdowns, closes and reconnects with slow or ill-behaved peers; distinct by event history"),
    "M03": dict(jobs=[J("sock", "release", 250, 4000), J("httpsrv", "release", 40, 800), J("httpcli", "release", 40, 800), J("hostile", "release", 50, 800)], need=["release_cases", "faults_injected", "constructions_failed", "accepted", "closes_reported"],
                rule="a case = one seeded history (sockets, acceptors, UDP, buffered sockets, HTTP servers and clients, hostile streams, or objects built while system calls fail) repeated 5 times; descriptors and live heap compared after every repetition; distinct by event history"),
    "H08": dict(jobs=[J("httpsrv", "wsserver", 500, 8000), J("httpsrv", "rawserver", 300, 5000)], need=["raw_reused", "raw_unfinished", "upgrades", "ws_messages", "ws_pongs", "ws_out", "ws_streams", "ws_closes", "ws_disconnects", "ws_violations", "ws_probes", "ws_stream_naps", "ws_throws", "idle_phases", "ws_idle_words", "ws_close_bad_reasons"],
                rule="a case = one server and up to 14 raw peers, most of which upgrade and exchange fragmented messages, control frames, violations and closes while the server user echoes, writes, streams, pings, closes and throws at random moments; distinct by event history"),
    "H10": dict(jobs=[J("httpsrv", "rawserver", 400, 8000), J("httpsrv", "server", 600, 15000)], need=["requests", "responses", "postponed", "streams", "late_writes", "peers_left", "faults_injected", "sleeps_checked", "own_dates", "raw_reused", "raw_user_closed", "raw_unfinished", "raw_disconnects"],
                rule="a case = one server and up to 14 raw peers sending pipelined, delayed and malformed requests with self-identifying bodies to handlers which answer, postpone, stream, throw and upgrade at random moments, or 1..3 connection objects used without a server which accept one peer after another, their user closing them at random moments; distinct by event history"),
    "H11": dict(jobs=[J("httpsrv", "server", 600, 15000)], need=["responses", "postponed", "disconnect_notices", "peers_left", "servers_destroyed", "faults_injected"],
                rule="a case = as for H10; throwing, authorization-failing and postponing handlers against peers which leave, reset and send malformed requests; distinct by event history"),
    "H12": dict(jobs=[J("httpsrv", "server", 600, 15000)], need=["limit_reached", "requests", "peers_left", "sleeps_checked", "waiting_at_limit", "connect_bursts"],
                rule="a case = as for H10 with limits of 1..6 connections or 100; open connections are counted at every moment the loop sleeps; distinct by event history"),
    "H13": dict(jobs=[J("httpsrv", "server", 500, 12000), J("httpcli", "wsclient", 100, 2000)], need=["streams", "streams_finished", "stream_backpressure", "overshoots", "pumps", "unannounced_bodies", "misannounced_bodies", "plain_responses"],
                rule="a case = as for H10; responses streamed in up to 25 pieces, announced or chunked, pulled by backpressure and timers, compared piece by piece with the chunks peers receive, and client requests with announced, unannounced and misannounced bodies; distinct by event history"),
    "H09": dict(jobs=[J("httpcli", "wsclient", 900, 15000)], need=["upgrades", "handshakes_wrong", "ws_messages", "ws_out", "ws_pongs", "ws_closes", "ws_closes_read", "ws_violations", "ws_bad_texts", "plain_responses", "closed_notices", "dropped", "connects_over", "destroyed_in_handler", "sleeps_checked"],
                rule="a case = up to 4 client connections connecting, over and over, by name or address to raw peers which answer requests, accept or spoil the handshake, send fragmented messages, control frames, violations and closes, and leave at random moments; distinct by event history"),
    "H14": dict(jobs=[J("httpcli", "client", 1500, 25000)], need=["sends", "responses", "errors", "reuses", "twins_of_kept", "kept_checked", "refused_uris", "set_handlers", "cancels", "destroyed_requesting", "dns_answers", "dns_cancels", "dns_failures", "connects_refused", "malformed", "faults_injected", "slow_answers", "slow_answers_reused", "sleeps_checked"],
                rule="a case = up to 5 simple clients sending requests over and over to raw peers which answer fully, partially, early, wrongly or never and leave at random moments, with names resolved late, refused connects, cancels and destruction; distinct by event history"),
    "M01": dict(jobs=[J("hostile", "hostile", 350, 8000), J("hostile", "hostile", 60, 1000, san="asansse")], need=["hostile_streams", "hostile_ws", "honest_answered", "honest_client_answered", "client_errors", "client_messages", "messages_seen", "upgrades", "buffered_accepted", "heap_cases", "heap_samples", "faults_injected"],
                rule="a case = one server, clients and buffered sockets receiving up to 40 generated, mutated or random byte streams among honest exchanges, or up to 4 connections receiving heads without an end while the heap is sampled; distinct by stream contents and events"),
    "N09": dict(jobs=[J("opts", "tcpopts", 80, 1500), J("opts", "udpopts", 150, 3000)], need=["acceptors", "connected", "accepted", "addresses_compared", "sizes_compared", "port_again_allowed", "port_again_refused", "bad_settings", "receivers", "receivers_refused", "memberships_compared", "transmitters", "ttls_set", "replies"],
                rule="a case = one acceptor and up to 3 connections with random settings on the real kernel, beside control sockets set up by plain system calls, or one receiver, other members and senders of one multicast group with random adapter, sizes and TTL beside control sockets; distinct by resulting options, adapters and data"),
    "N07": dict(jobs=[J("httpcodec", "address", 5000)], need=["addresses_v4", "addresses_v6", "addresses_bad", "address_texts_valid", "address_texts_invalid"],
                rule="a case = 10 addresses formed from bytes, parsed, printed and reparsed, classified, and 20 malformed texts; distinct by printed forms"),
    "E03": dict(jobs=[J("threads", "watch", 200, 4000), J("threads", "watch", 60, 1200, san="tsan")], need=["watcher_calls", "watcher_callbacks", "awaited_calls", "handed_over_writes", "watcher_cancels", "watchers_destroyed", "perturbations"],
                rule="a case = 1..3 loop threads owning up to 6 watchers each, called by up to 4 threads and by each other's callbacks while they are cancelled, destroyed and recreated, on the real kernel with scheduling perturbed at lock and wakeup calls; distinct by observed order of calls and callbacks"),
    "E04": dict(jobs=[J("threads", "run", 400, 8000), J("threads", "run", 120, 2400, san="tsan")], need=["loop_cancels", "loop_runs", "loop_callbacks", "threads", "cancel_rounds", "second_loops_refused", "perturbations"],
                rule="a case = threads with loops started, cancelled and joined; or one loop run up to 80 times, each run ended by one cancel before or during it; or cancels by many threads and callbacks at once; or loops of one thread one after the other; distinct by observed order of runs, cancels and callbacks"),
    "N05": dict(jobs=[J("threads", "dns", 250, 5000), J("threads", "dns", 80, 1500, san="tsan"), J("threads", "dnsexit", 12, 200)], need=["resolves", "answers", "empty_answers", "resolver_cancels", "resolvers_destroyed", "resolved_again", "ended_outstanding", "sync_resolves", "exits_outstanding", "perturbations"],
                rule="a case = 1..3 loop threads with up to 5 resolvers each, resolving, cancelling, destroying and resolving again while getaddrinfo is replaced by one that answers late, wrongly or not at all; or a process that exits with requests outstanding; distinct by observed order of requests and answers"),
    "N06": dict(jobs=[J("threads", "signal", 80, 1500)], need=["processes", "signals_raised", "signal_callbacks", "signal_destroys", "signal_pending_destroys", "interrupts", "perturbations"],
                rule="a case = one process with up to 2 signal handler objects, receiving up to 100 signals from other threads of its own while the loop sleeps, works, is interrupted, and handlers are destroyed with and without a signal pending; distinct by observed order of raises and callbacks"),
    "M02": dict(jobs=[J("threads", "mix", 60, 1000, san="tsan"), J("threads", "watch", 40, 800, san="tsan"), J("threads", "run", 60, 1200, san="tsan"), J("threads", "dns", 40, 800, san="tsan"), J("threads", "signal", 12, 200, san="tsan"), J("threads", "dnsexit", 6, 100, san="tsan"), J("threads", "mix", 60, 1000),
                      J("threads", "apart", 48, 900, san="tsan"), J("threads", "apart", 48, 900)],
                need=["apart_pure", "apart_datagrams", "apart_bytes", "apart_answers", "apart_frames", "apart_resolved", "mixed_requests", "mixed_answers", "mixed_answers_of_workers", "mixed_jobs", "mixed_messages", "watcher_calls", "loop_cancels", "resolves", "signals_raised", "perturbations"],
                rule="a case = one multi-threaded program under ThreadSanitizer: a server handing requests to worker threads over watchers, further servers in the worker threads, clients resolving names; or threads that share nothing at all, each using the whole interface by itself; or one of the programs of E03, E04, N05 and N06; distinct by observed order of events"),
}

PURE = "Held on every execution explored: randomized inputs against an independent reference implementation, under AddressSanitizer and UBSan. Trusts the references in the harness and the sanitizers; says nothing about inputs not generated."
MODEL = "Held on every operation history explored, compared step by step with an executable model, under AddressSanitizer and UBSan. Trusts the model; says nothing about histories not generated."
REAL = "Held on every execution explored: real threads on the real kernel, scheduling perturbed by random delays at lock, wakeup and resolver calls, watched by online monitors that add no ordering of their own, under ThreadSanitizer and AddressSanitizer. Says nothing about interleavings that did not occur."
SIM = "Held on every execution explored: the real code runs against a simulated kernel (edge-triggered epoll, sockets, virtual clock) which randomizes delays, splits, wakeups and faults, watched by online monitors under AddressSanitizer and UBSan. Trusts the simulated kernel to behave as Linux does; says nothing about schedules not generated."
NOTES = {
    "C01": ("differential oracle + ASan/UBSan over generated inputs", PURE),
    "C02": ("differential oracle + ASan/UBSan over generated inputs", PURE),
    "C03": ("differential oracle + ASan/UBSan over generated inputs", PURE),
    "C04": ("128-bit arithmetic oracle + UBSan over generated inputs", PURE),
    "C06": ("online model monitor (std::string, flag and value) + ASan/UBSan", MODEL),
    "C05": ("reference-generator oracle + ASan/UBSan", PURE),
    "H01": ("reference-parser oracle over generated and mutated heads in all splits + ASan/UBSan", PURE),
    "H02": ("reference-parser oracle over generated and mutated heads in all splits + ASan/UBSan", PURE),
    "H03": ("reference-decoder oracle over generated and mutated bodies in all splits + ASan/UBSan", PURE),
    "H04": ("round-trip and reference-parser oracle + ASan/UBSan", PURE),
    "H05": ("reference-decoder oracle + ASan/UBSan over generated inputs", PURE),
    "H06": ("reference-resolver oracle + ASan/UBSan over generated inputs", PURE),
    "H07": ("reference-codec oracle + ASan/UBSan over generated frames", PURE),
    "N07": ("reference-printer oracle + ASan/UBSan over generated addresses", PURE),
    "S01": ("online model monitor (flat byte sequence) + ASan/UBSan", MODEL),
    "S02": ("online model monitor (deque) + ASan/UBSan", MODEL),
    "S03": ("online model monitor (multiset/list) + ASan/UBSan", MODEL),
}
NOTES["E01"] = ("online timer monitor in virtual time on a simulated kernel + ASan/UBSan", SIM)
NOTES["E02"] = ("online lifetime monitor over object histories on a simulated kernel + ASan/UBSan", SIM)
NOTES["E05"] = ("online scheduling monitor on a simulated kernel + ASan/UBSan", SIM)
NOTES["E06"] = ("online counter monitor against the calls a simulated kernel saw, with faults, + reference list of records + ASan/UBSan", SIM)
NOTES["N01"] = ("online byte-stream monitor on a simulated kernel + ASan/UBSan", SIM)
NOTES["N02"] = ("online notification monitor on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["N03"] = ("online accept monitor on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["N04"] = ("online datagram monitor on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["N09"] = ("control-socket oracle over option and membership state of the real kernel + ASan/UBSan", "Held on every execution explored: the real code on the real kernel, loopback only, compared with control sockets set up by plain system calls. Says nothing about other adapters or options not generated.")
NOTES["N08"] = ("online byte-stream and shutdown monitor on a simulated kernel + ASan/UBSan", SIM)
NOTES["M03"] = ("descriptor accounting and heap growth monitor on a simulated kernel with faults + ASan", SIM)
NOTES["H08"] = ("online WebSocket session monitor on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["H10"] = ("online exchange monitor on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["H11"] = ("online failure and disconnect monitor on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["H12"] = ("online connection-count monitor on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["H13"] = ("online framing monitor on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["H09"] = ("online WebSocket session monitor of clients on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["H14"] = ("online outcome monitor of client requests on a simulated kernel with faults + ASan/UBSan", SIM)
NOTES["M01"] = ("AddressSanitizer/UBSan under generated hostile streams + isolation probes + heap bound monitor", SIM)
NOTES["E03"] = ("online delivery monitor over real threads with perturbed scheduling + ThreadSanitizer and ASan", REAL)
NOTES["E04"] = ("online run/cancel monitor over real threads with perturbed scheduling + ThreadSanitizer and ASan", REAL)
NOTES["N05"] = ("online answer monitor over real threads with an interposed resolver + ThreadSanitizer and ASan", REAL)
NOTES["N06"] = ("signal monitor in child processes with perturbed scheduling + ASan/UBSan", REAL)
NOTES["M02"] = ("ThreadSanitizer over multi-threaded programs with perturbed scheduling", REAL)
NA = {}
