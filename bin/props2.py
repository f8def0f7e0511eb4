"""Properties decided by the simulators other than citm's."""
SRV_EX = "Seeded search over plans (database changes, subscribers, queries, faults) and schedules of one kvpsend with up to three dns servers; finds violations, does not prove absence. "
SRV_ENV = "Trusts the simulated libuv (sockets, pipes, timers; sim/common/simuv.cc), the stand-in database and the model resolver."
def add(prop, NA):
    KS = "server/libkvpsync/"; KV = "server/kvpsend/"; DN = "server/dns/"
    prop("K01", "A challenge reported ready is answered by every dns server that is sure",
     "Once a user's subscriber has been told that the challenge is ready, every dns server which claims to be in sync answers a query for it with that challenge, and none of them denies that it exists. A server that is not in sync says so (it does not answer authoritatively) instead of denying or giving an old answer.",
     ["schedules", "fault_sequences", "histories"], "all orders, losses, duplications and delays (up to minutes) of the sync packets and acknowledgements, with crashes and restarts of either side, partitions, send errors and clock skew, while challenges are set, changed and deleted",
     "The unit tests feed the sender and receiver short hand-written packet scripts, one side at a time; the guarantee is about both sides together over every order of packets and restarts.",
     [KS+"send.c", KS+"recv.c", KS+"pkts.c", KV+"kvpsend.c", KV+"main.c", DN+"main.c", DN+"dns.c"],
     [("the sender vouches for a receiver's OK state only as far as everything older is acknowledged", KS+"send.c: calculate_ok_expiry"), ("the receiver answers UNSURE when its OK state has lapsed", KS+"recv.c: kvpsync_recv_get_value"), ("readiness of an entry is tracked per peer", KV+"kvpsend.c: add_key acknowledgement, readymask")],
     SRV_EX+"Two known findings are listed (ready-after-restart, stale-sync). "+SRV_ENV)
    prop("K02", "The dns servers converge to the database once faults end",
     "Once packets get through again and processes stay up, every dns server answers with exactly the challenges of the database within a bounded time, and every waiting subscriber and health check is told that all servers are in order.",
     ["fault_sequences", "schedules", "histories"], "any sequence of packet loss, duplication, partitions, stalls, send errors, database errors, crashes and restarts, then a quiet period of a few simulated minutes",
     "A test of a few packets cannot show that no combination of lost packets and restarts leaves the two sides stuck for ever.",
     [KS+"send.c", KS+"recv.c", KV+"kvpsend.c", KV+"main.c", DN+"main.c", "libduv/util.c"],
     [("resends, resync on a recv_id or resync_id change", KS+"send.c: advance_state, kvpsync_send_resync"), ("START, inserts and FLUSH bring a receiver back", KS+"recv.c: kvpsync_recv_handle_update"), ("a full rescan of the database repairs missed notifications", KV+"main.c")],
     SRV_EX+"One known finding is listed (stale-sync). "+SRV_ENV)
    prop("K03", "No dns server gives an answer the database does not justify",
     "A challenge is answered only if the user's database entry had that value, and only in the order in which values were set: a server which has answered a newer value, or was known to have removed one, never goes back to an older one while it claims to be in sync.",
     ["schedules", "fault_sequences"], "duplicated and very late packets of present, past and crashed senders, any order of inserts and deletes of the same key",
     "Resurrection needs a packet that arrives after a deletion has been acknowledged and forgotten; tests never hold a packet back that long.",
     [KS+"recv.c", KS+"send.c", KS+"pkts.c"],
     [("inserts and deletes carry update ids, deletions leave tombstones for the packets' lifetime", KS+"recv.c: handle_recv_or_delete, do_gc")],
     SRV_EX+"One known finding is listed (stale-sync). "+SRV_ENV)
    prop("K04", "Each challenge subscriber is answered exactly once, correctly and in time",
     "A subscriber waiting for a challenge is told that it is ready only if it asked for the current challenge and the servers have it: promptly when all servers are healthy, and after a grace period when only some are. Otherwise it is told of a timeout, not before the timeout and not long after it; nobody is left without an answer, and none is answered twice.",
     ["schedules", "fault_sequences", "inputs"], "subscribers, health checks, hang-ups, malformed and oversized requests arriving byte by byte at any time relative to database changes, acknowledgements, peer failures and restarts",
     "test_kvpsend drives the readiness bookkeeping alone through one sequence of calls; sockets, timers and disconnections are not in it.",
     [KV+"kvpsend.c", KV+"main.c", KV+"kvpsend.h"],
     [("subscribers are kept with their entry and answered on readiness or timeout", KV+"kvpsend.c: check_sub, timeout handling"), ("requests are read and answered over a local socket", KV+"main.c")],
     SRV_EX+SRV_ENV)
    prop("K05", "The dns responder answers well-formed, matching and bounded",
     "Every valid query for a name of the zone gets a response that repeats its id and question, has the right records and rcode and stays within the size the client allows. Whatever else arrives gets a well-formed error or nothing, and no address gets more answers per second than the limit allows.",
     ["inputs", "schedules", "histories"], "queries of all types, names, cases and EDNS options (valid and not), truncations, bit flips and random bytes, bursts from one or many addresses, over any sync state of the server",
     "The parser and writer tests hold a handful of fixed packets; the rate limiter's test is one sequence over one window.",
     [DN+"dns.c", DN+"parse.c", DN+"write.c", DN+"rrl.c", DN+"main.c", DN+"membuf.c"],
     [("parse, respond, write with the client's size limit", DN+"dns.c, "+DN+"write.c"), ("rate limiting per address in a fixed-size table", DN+"rrl.c")],
     SRV_EX+"Packets are judged by an independent parser. "+SRV_ENV)
    prop("K06", "No packet, client or network trouble stops the servers",
     "Neither the dns server nor kvpsend ends, crashes or stops serving because of anything another party sends, or of packets and connections that fail; kvpsend may end only when the database fails, and a requested end is orderly.",
     ["inputs", "fault_sequences", "schedules"], "arbitrary bytes to all sockets, hang-ups at any point, failing sends, peers that are down, any timing of timers and shutdown",
     "A test process that runs for a second with well-behaved peers meets none of this.",
     [DN+"main.c", DN+"dns.c", DN+"membuf.c", KV+"main.c", KV+"kvpsend.c", "libduv/util.c"],
     [("errors of single packets and clients are logged and dropped", DN+"main.c, "+KV+"main.c"), ("buffers are returned on every path", DN+"membuf.c")],
     SRV_EX+"ASan and the code's own assertions watch every run. "+SRV_ENV)
    prop("K07", "One server per socket: the lock refuses a second, and a crash frees it",
     "While a kvpsend serves its socket a second one with the same socket is refused and leaves the first undisturbed. After the first has ended or was killed at any point, the next one starts without help.",
     ["schedules", "crash_points", "histories"], "a second process started at any time, kills at any time and restarts, with the files an earlier process left",
     "No test starts a second process or kills the first.",
     ["libduv/util.c", KV+"main.c"],
     [("bind under a lock file, replace a stale socket", "libduv/util.c: duv_pipe_bind_with_lock")],
     SRV_EX+SRV_ENV)

    NET_EX = "Seeded search over plans (reads, writes, requests, cancels, faults), segmentations and schedules; finds violations, does not prove absence. "
    NET_ENV = "Trusts the simulated libuv and network (sim/common/simuv.cc), the scripted peers and OpenSSL."
    DU = "libduv/"; TL = "libduvtls/tls.c"; HT = "libhttp/"
    prop("T01", "Streams carry every byte exactly, once and in order",
     "Through a TCP or TLS stream of the program, or any nesting of its stream wrappers, the bytes read on one side are those written on the other: all of them up to the end, in order, without additions. Once a reader has been told of an end without an error it has got everything the other side wrote before shutting down.",
     ["schedules", "inputs", "fault_sequences"], "any split of the data into segments and buffers, any order of reads, writes and shutdowns on both sides, slow readers, full windows, short and refused writes, cut connections",
     "The stream tests send a megabyte each way over loopback with one pattern of calls; short writes, stalls, empty buffers and overlapping shutdowns do not occur there.",
     [DU+"passthru.c", TL, DU+"stream.h", DU+"concat.c"],
     [("writes are queued and handed down in order, one at a time", DU+"passthru.c"), ("the TLS engine moves bytes between two memory BIOs", TL)],
     NET_EX+NET_ENV)
    prop("T02", "Every read and write of a stream is completed exactly once",
     "Each read, write and shutdown accepted by a stream is either completed by its callback or given back to the await callback, never both and never twice; completions come in the order of the calls, no callback is made from within a call, a shutdown completes after all writes before it, and the await callback comes once and last.",
     ["schedules", "fault_sequences"], "reads, writes and shutdowns from within callbacks and outside, with connection errors, errors of the peer, cancels and end of stream at any point between them",
     "Each test cancels at one chosen moment; the bookkeeping errors show when an error, a cancel and a completion fall together.",
     [DU+"passthru.c", TL, DU+"stream.c", DU+"stream.h"],
     [("pending requests are lists, filtered into callbacks or the await callback", DU+"passthru.c, "+TL), ("callbacks are deferred by the scheduler", DU+"scheduler.c")],
     NET_EX+NET_ENV)
    prop("T03", "Streams always end: in bounded time, with the right error, leaking nothing",
     "A canceled stream ends with the error it had before, or as canceled, in bounded time whatever its peer does; a stream shut down and read to its end on both sides ends without error; one whose connection broke ends with an error. When it has ended its connection is closed and everything it had allocated is given back.",
     ["schedules", "fault_sequences", "histories"], "cancels, resets, hang-ups, silent peers, write errors and full windows at any point of the handshake, the data and the shutdown",
     "An end is tested from a handful of states; a stream that never ends shows only as a hanging program.",
     [DU+"passthru.c", TL, DU+"stream.c"],
     [("closing is a fixed sequence of steps that waits for each thing in flight", DU+"passthru.c: advance_state, "+TL+": advance_state")],
     NET_EX+NET_ENV)
    prop("T04", "TLS: only verified peers get data, corruption is never passed on",
     "A client exchanges data only with a server whose certificate is valid, trusted and for the name asked for, and otherwise ends with the error that names the reason. Bytes changed, dropped or cut off on the wire end the stream with an error; they are never delivered as data nor as an orderly end.",
     ["inputs", "fault_sequences", "schedules"], "good, expired, future, self-signed, unknown and misnamed certificates; bit flips, insertions, truncations and cuts at any offset of the handshake and the data",
     "The tests have one good handshake and one misnamed host; nothing modifies the ciphertext.",
     [TL, "libcrypto/networking.c", "libcrypto/ssl_errors.c"],
      [("the certificate is verified by OpenSSL with the host name set, errors are classified", TL), ("an end without close_notify is an error", TL)],
     NET_EX+NET_ENV)
    prop("T05", "Connecting calls back exactly once, after trying every address",
     "duv_connect calls back exactly once, never from within the call: with a working connection if any of the host's addresses accepts one, all of them being tried in order, and otherwise with an error. A cancel makes it call back soon, whatever the network does, and nothing stays open.",
     ["schedules", "fault_sequences"], "lookups that fail or take long, addresses that accept, refuse, time out or fail at once in any order, cancels at any point",
     "The test connects to localhost and cancels once right after starting.",
     [DU+"connect.c"],
     [("lookup, then one attempt per address, each with a fresh socket", DU+"connect.c")],
     NET_EX+NET_ENV)
    prop("H01", "HTTP answers arrive exactly, and incomplete ones are never taken for whole",
     "For every request the user gets the status, the headers and the body that the server answered, exactly and each once. An answer that is cut off before its end, or malformed, ends with an error instead of being reported as complete, and a valid one from a server that stays up is not refused.",
     ["inputs", "schedules", "fault_sequences"], "bodies with a length, chunked, until the end of the connection and without one, in all segmentations, over TCP and TLS; truncation, resets, malformed lines, lengths and chunks",
     "The parser tests feed fixed texts, whole and byte by byte; the client's test has one server that always answers in one write.",
     [HT+"duv_http.c", "libweb/http.c", HT+"chunked.c", HT+"limit.c", HT+"borrow.c", DU+"concat.c"],
     [("the body is read through wrappers that count or parse chunks", HT+"duv_http.c"), ("scanning restarts from the last whole token", "libweb/http.c")],
     NET_EX+NET_ENV)
    prop("H02", "The right HTTP server gets exactly the request, once",
     "A request is sent to the host, port and kind of connection that its URL names and to no other, with the method, target, headers and body given, complete and at most once; a request whose URL is invalid or that was canceled before it began is not sent, and nothing is sent to a server whose certificate is not valid.",
     ["inputs", "schedules", "histories"], "sequences of requests to several hosts, ports and schemes through one client, with connections that are kept, closed or broken in between",
     "The test sends its requests to one server; sending one over a connection left by another needs a second one of another kind.",
     [HT+"duv_http.c", HT+"marshal.c", "libweb/url.c"],
     [("a kept connection is used only for the same host, port and kind", HT+"duv_http.c: req_start"), ("the request is marshaled piecewise into the write buffer", HT+"marshal.c")],
     NET_EX+NET_ENV)
    prop("H03", "Each HTTP request ends exactly once and leaves nothing behind",
     "Every request ends with exactly one await callback, after which none of its callbacks comes; reads are completed once or given back. Canceling a request or closing the client ends it in bounded time, in whatever state it is, and other requests are unaffected; a closed client calls back once and has given back all connections and memory.",
     ["schedules", "fault_sequences"], "requests queued behind others, canceled or closed at any point of connecting, sending, answering and after the end; servers that hang, reset or refuse",
     "The test cancels at two moments; requests that share one client are not canceled behind each other.",
     [HT+"duv_http.c", HT+"borrow.c", HT+"limit.c", HT+"chunked.c", DU+"concat.c", DU+"connect.c"],
     [("requests of a client wait in a list and take turns with its memory", HT+"duv_http.c: http_advance_state, http_completed_req")],
     NET_EX+NET_ENV)
    prop("H04", "Idle HTTP connections are reused, and closed after three seconds",
     "A request that follows another one to the same server within the idle time uses its connection if the server left it open, and a connection on which nothing happens is closed about three seconds after its last request ended, so that none stays open for ever.",
     ["schedules", "histories"], "sequences of requests with all gaps between them, some of them canceled or failing",
     "The tests never wait for the idle timer.",
     [HT+"duv_http.c"],
     [("the idle timer runs between requests", HT+"duv_http.c: http_completed_req, http_advance_state")],
     NET_EX+"One known finding is listed (tls-once). "+NET_ENV)
