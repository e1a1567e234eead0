#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a table so it stays reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   observe_at=list(observe),hook_needed=hook)))
S,C,I,H,F,G="schedules","crash_points","inputs","histories","fault_sequences","configurations"
# ---------------- transactions
p("T01","Client transaction ends exactly once, in bounded time, whatever the network does",
 "Every SIP client transaction reports at most one final outcome class to its user and always reaches termination: after a final response, or, when none gets through, after the protocol timeout (64*T1, i.e. 32 s with default timers), never earlier and never not at all. While unanswered on an unreliable transport the request is retransmitted on the T1-doubling schedule, no gap longer than T2, never after a final response, and never on a reliable transport.",
 [S,F,H],"all interleavings of worker threads, all loss/duplication/reordering/delay sequences on the datagrams, all timer settings",
 "The tests drive the state machine one event at a time with real sleeps and no loss; outcomes depend on which of timer, response and transport failure is processed first.",
 ["crates/sip-transaction/src/manager.rs","crates/sip-transaction/src/fsm.rs","crates/sip-transaction/src/timers.rs"],
 [("client FSMs","crates/sip-transaction/src/fsm.rs"),("timer scheduling","crates/sip-transaction/src/manager.rs")],
 [("client transactions","live client transactions by key","manager.rs")],["client user callbacks","datagrams on the wire","virtual clock"])
p("T02","Server transaction absorbs retransmissions and repeats its last answer",
 "While its transaction lives, a request reaches the server user exactly once however often the network repeats it, and every repetition is answered with the most recent response already sent, byte for byte. Only one final response to a request is ever sent (an INVITE's 2xx copies aside). A final response to INVITE is repeated over unreliable transport until the ACK arrives or the 64*T1 timeout passes, and never after the ACK.",
 [S,F,H],"all duplications, delays and losses of requests, responses and ACKs relative to the moments the user answers",
 "Needs network histories (duplicate arriving between provisional and final, ACK lost, ACK racing the retransmit timer) that single-step tests never form.",
 ["crates/sip-transaction/src/manager.rs","crates/sip-transaction/src/fsm.rs"],
 [("server FSMs","crates/sip-transaction/src/fsm.rs"),("retransmission matching","crates/sip-transaction/src/manager.rs")],
 [],["server user handles","datagrams on the wire"])
p("T03","INVITE failures are always acknowledged, hop by hop, by the transaction",
 "Every copy of a non-2xx final response that reaches a live INVITE client transaction is answered by an ACK that reuses the INVITE's branch, request target, Call-ID, From and CSeq number and carries the To of that response, and the user is told of the failure once. A 2xx is never acknowledged with such a hop-by-hop ACK; every copy of it is handed to the user to acknowledge end to end.",
 [S,F,H],"all loss/duplication/reordering of final responses and ACKs",
 "Depends on repeated and reordered finals arriving inside the completed state's lifetime.",
 ["crates/sip-transaction/src/fsm.rs","crates/sip-transaction/src/manager.rs"],
 [("INVITE client completed state","crates/sip-transaction/src/fsm.rs")],[],["ACK datagrams","user callbacks"])
p("T04","One failing transaction or transport never stalls the others",
 "The transaction layer keeps making progress for every other transaction when sends fail, stall or time out in bursts, or when a burst of new transactions arrives: each transaction whose own peer is reachable still completes within its protocol bounds, and a transaction whose transport failed is told so.",
 [S,F],"bursts of transport failures and stalls of any size, at any moment, under any schedule",
 "The existing tests use dispatchers that always succeed and a handful of transactions; stalls need bursts larger than internal queues while timers fire.",
 ["crates/sip-transaction/src/manager.rs"],[("command loop and timers","crates/sip-transaction/src/manager.rs")],[],["user callbacks","virtual clock"])
p("T05","Transaction state is reclaimed and its caps hold",
 "After traffic stops, every client and server transaction disappears from the manager within the protocol linger times, and at no moment does the number of live transactions of a kind exceed the configured cap. When the cap forces one out, its user is told it terminated, and newer transactions are unaffected.",
 [S,F,H,G],"all traffic histories, losses and caps",
 "Leaks show only over long simulated time and after losses (never-ACKed, never-answered transactions).",
 ["crates/sip-transaction/src/manager.rs","crates/sip-transaction/src/metrics.rs"],[("limits and reaping","crates/sip-transaction/src/manager.rs")],[],["live-transaction counts","terminated callbacks"])
# ---------------- transport
p("N01","Stream framing is independent of how the bytes are cut up",
 "A stream of SIP messages sent over a connection is delivered as exactly those messages, each complete, unmodified and in order, no matter how the network segments, delays or coalesces the bytes or how keep-alive CRLFs are interleaved between messages. A peer that breaks framing (no or conflicting length, oversized header or body) or cuts the stream mid-message never causes a partial or merged message to be delivered.",
 [F,I],"all segmentations, short reads, delays, connection cuts and keep-alive placements over all message sequences",
 "Unit tests feed a few hand-cut buffers; the failing cut is one of combinatorially many.",
 ["crates/sip-transport/src/lib.rs","crates/sip-transport/src/pool.rs"],[("frame splitter","crates/sip-transport/src/lib.rs"),("stream session loop","crates/sip-transport/src/lib.rs")],[],["packets handed to the upper layer"])
p("N02","Pooled connections deliver in order to the right peer, and stay within the cap",
 "Messages accepted for a peer while its connection is healthy are written to that peer exactly once, whole and in acceptance order, and never to another peer; a send reported as failed is not delivered. Concurrent first sends to one peer share one connection; a connection given up as idle or over the limit is closed without cutting a message; after a connection dies the next send opens a fresh one and is delivered on it. The number of pooled connections never exceeds the configured maximum under any concurrency.",
 [S,F,H],"all interleavings of concurrent senders with connection resets, closes, refusals and reconnects",
 "Requires a reconnect racing the clean-up of the previous connection, or many senders racing the cap.",
 ["crates/sip-transport/src/pool.rs"],[("connection reuse and reaping","crates/sip-transport/src/pool.rs"),("slot permits","crates/sip-transport/src/pool.rs")],[],["bytes received by the simulated peers","pool size"])
p("N03","A stalled or dead peer never blocks traffic to other peers",
 "Sending to one peer that accepts the connection but stops reading, never completes the connection, or resets it, does not delay sends to other peers or the rest of the process: those complete within bounded time, and sends to the bad peer themselves fail or queue without blocking unrelated work.",
 [S,F],"all sets of stalled/slow/blackholed peers and all schedules of concurrent senders",
 "No test runs with a peer that stops reading; the failure needs full socket buffers and full queues at once.",
 ["crates/sip-transport/src/pool.rs","crates/sip-transport/src/lib.rs"],[("pooled send path","crates/sip-transport/src/pool.rs"),("connect timeout","crates/sip-transport/src/lib.rs")],[],["completion time of sends to healthy peers"])
p("N04","Listeners bound sessions, shed silent peers and recover afterwards",
 "A TCP or TLS listener holds at most its configured number of sessions per source address and in total, closes a connection that never completes a first message within the handshake window, keeps an established idle connection for the configured idle time, and once sessions end accepts new ones from the same source again up to the same limits. When the peer closes, the local side closes too and later sends on that connection fail rather than queue.",
 [S,F,H],"all histories of connects, idles, half-closes, resets and reconnect storms",
 "Timeouts of 60 s to 30 min and per-source counters under churn cannot be reached by real-time tests.",
 ["crates/sip-transport/src/lib.rs"],[("session limits","crates/sip-transport/src/lib.rs"),("idle timeouts","crates/sip-transport/src/lib.rs"),("session teardown","crates/sip-transport/src/lib.rs")],[],["simulated peers' view of the connection","packets delivered"])
# ---------------- rate limiting
p("R01","Rate limiter never admits more than burst plus refill, per key",
 "Over every time interval the requests admitted for one key never exceed the burst capacity plus the configured rate times the interval length (up to one request of rounding), whatever other keys do, however callers interleave, and whether or not idle clean-up, eviction of other keys or time gaps happen in between.",
 [S,H,G],"all interleavings of callers, all arrival times including long gaps, all configurations",
 "Tests sample single-threaded bursts and short sleeps; over-admission appears through clean-up of a drained bucket, refill rounding or check-then-act races.",
 ["crates/sip-ratelimit/src/lib.rs"],[("token bucket","crates/sip-ratelimit/src/lib.rs"),("idle clean-up","crates/sip-ratelimit/src/lib.rs")],[("buckets","tokens per key","crates/sip-ratelimit/src/lib.rs")],["admit/deny decisions against the virtual clock"])
p("R02","A throttled key recovers, other keys are unaffected, counts add up",
 "A key that keeps within its configured average rate after being throttled is admitted again within one refill period of becoming entitled, decisions for one key never depend on another key's traffic, and total checks always equal admitted plus denied. Resetting a key restores its full burst, and reported remaining capacity never promises a request that an immediately following check denies.",
 [S,H],"all interleavings and long time histories over many keys",
 "Starvation and cross-talk need long clock histories and concurrent callers.",
 ["crates/sip-ratelimit/src/lib.rs"],[("token bucket refill","crates/sip-ratelimit/src/lib.rs"),("metrics","crates/sip-ratelimit/src/lib.rs")],[],["decisions, remaining tokens and counters"])
# ---------------- auth
p("A01","Each digest credential authorises at most one distinct request",
 "A request is accepted only if its digest was computed with the right user's password over that request's method and URI for a nonce this server issued, and for each nonce every nonce-count value authorises at most one distinct request, even when copies arrive concurrently or out of order. A repeat of the same request (method, URI and body) may be accepted again only within the configured retransmission window of the nonce's last use.",
 [S,H,F],"all interleavings of concurrent verifications, replays, reorderings and clock advances",
 "Replay acceptance needs two verifications of the same credential racing, or a replay at a chosen time.",
 ["crates/sip-auth/src/lib.rs"],[("nonce-count tracking","crates/sip-auth/src/lib.rs"),("digest comparison","crates/sip-auth/src/lib.rs")],[("nonce table","issued nonces and their last count","crates/sip-auth/src/lib.rs")],["accept/reject decisions"])
p("A02","Nonces live exactly as long as configured and are never reused",
 "A nonce is honoured from issue until its configured lifetime has passed and never after, an expired but genuine nonce is reported stale rather than as a bad password, nonces are unique and never accepted if this server did not issue them, and the number remembered never exceeds the configured cap.",
 [S,H,G],"all clock histories, caps and concurrent issuers",
 "Lifetimes of minutes, caps of thousands and concurrent issue are out of reach of real-time tests.",
 ["crates/sip-auth/src/lib.rs"],[("nonce expiry and eviction","crates/sip-auth/src/lib.rs")],[],["accept/stale decisions against the virtual clock","nonce count"])
p("A03","Bad credentials never spoil a legitimate client's session",
 "Requests that fail authentication, in any number and with any nonce-count values, leave the state of every nonce unchanged: the legitimate client's next correctly computed request on that nonce is still accepted while the nonce is alive.",
 [S,H],"all interleavings of attacker and legitimate requests on the same nonce",
 "Tests verify attackers are rejected, not that rejection has no side effect on somebody else's later request.",
 ["crates/sip-auth/src/lib.rs"],[("verify ordering","crates/sip-auth/src/lib.rs")],[],["accept decisions for the legitimate client"])
# ---------------- registrar
p("G01","The location service always reflects the accepted registrations",
 "At every moment the contacts returned for an address-of-record are exactly those of the accepted registrations so far, with removals applied and each contact present until its granted expiry and absent from then on, and a 200 answer lists exactly that set with its remaining lifetimes. This holds for concurrent registrations of the same and of different users.",
 [S,H,F],"all interleavings of register/refresh/remove/query from many users and all clock histories",
 "The tests run single registrations in sequence with no expiry passing and no concurrency.",
 ["crates/sip-registrar/src/lib.rs"],[("binding store","crates/sip-registrar/src/lib.rs"),("REGISTER handling","crates/sip-registrar/src/lib.rs")],[("bindings","contacts per AOR","crates/sip-registrar/src/lib.rs")],["lookup results","200 OK contacts"])
p("G02","A rejected registration changes nothing",
 "A REGISTER answered with anything but success leaves every binding exactly as it was, also when it carries several contacts and only one of them is at fault, and also when the storage backend fails part-way through.",
 [F,H,I],"all storage failure points within an update and all mixes of acceptable and unacceptable contacts",
 "Needs a storage fault or a bad contact placed after a good one within one request.",
 ["crates/sip-registrar/src/lib.rs"],[("multi-contact update","crates/sip-registrar/src/lib.rs")],[],["bindings before and after"])
p("G03","An older registration never overrides a newer one",
 "While a binding is live, a REGISTER with the same Call-ID and a lower or equal CSeq than the one that made it never changes, shortens, extends or removes the binding, whether it arrives late, duplicated or concurrently with the newer one.",
 [S,F,H],"all reorderings, duplications and interleavings of a client's REGISTER sequence",
 "Needs two requests of the same client in flight at once or reordered.",
 ["crates/sip-registrar/src/lib.rs"],[("CSeq comparison","crates/sip-registrar/src/lib.rs")],[],["bindings"])
p("G04","Registration limits and expiry policy hold under concurrency",
 "No interleaving of registrations lets an address-of-record or the whole store exceed its binding limits, and every granted lifetime lies within the configured minimum and maximum, with too-short requests refused and told the minimum. Expired bindings stop counting against the limits once cleaned up.",
 [S,H,G],"all interleavings of concurrent registrations near the limits and all configured bounds",
 "Check-then-insert races only show under concurrent registration at the limit.",
 ["crates/sip-registrar/src/lib.rs"],[("capacity checks","crates/sip-registrar/src/lib.rs"),("expiry policy","crates/sip-registrar/src/lib.rs")],[],["binding counts","responses"])
# ---------------- dialog
p("D01","In-dialog requests are accepted in strictly increasing order, at most once",
 "Within a dialog each accepted non-ACK request has a strictly higher sequence number than every one accepted before, so duplicates and late arrivals are refused and leave the dialog unchanged; an ACK is accepted exactly when it carries the number of the latest accepted INVITE, whatever other requests came between. Sequence numbers handed out for local requests are unique and strictly increasing, and the remote target follows the latest accepted request or response only.",
 [F,H],"all loss, duplication and reordering histories of in-dialog requests in both directions",
 "Tests apply a few ordered requests; reordering and duplication histories are unbounded.",
 ["crates/sip-dialog/src/lib.rs"],[("CSeq checks","crates/sip-dialog/src/lib.rs")],[],["dialog state after each message"])
p("D02","Dialog and subscription tables behave as maps with hard caps under concurrency",
 "Concurrent inserts, lookups, removals and clean-ups of dialogs and subscriptions are linearizable with respect to a simple map, never exceed the documented caps, never lose an entry that was inserted and not removed, and both peers of a call find the same dialog for a request travelling in either direction. Creation and termination counters agree with the history.",
 [S,H],"all interleavings of concurrent table operations, including at the caps",
 "Cap breaches and lost entries need racing writers at the limit.",
 ["crates/sip-dialog/src/lib.rs","crates/sip-dialog/src/metrics.rs"],[("insert serialisation","crates/sip-dialog/src/lib.rs")],[],["operation history"])
p("D03","Reliable provisionals: unique sequence numbers, each acknowledged at most once",
 "Sequence numbers issued for reliable provisional responses within a dialog start in 1..2^31-1 and increase by one without gaps or duplicates under any concurrency. A PRACK is accepted exactly when it names an outstanding provisional's sequence number, CSeq and method, at most once per provisional, also when copies race or arrive late, and an outstanding provisional stays acknowledgeable until accepted, removed, displaced by the documented cap or timed out.",
 [S,F,H],"all interleavings and duplications of PRACKs and provisional registrations over time",
 "Double acceptance needs racing PRACK copies; clean-up effects need minutes of clock time.",
 ["crates/sip-dialog/src/lib.rs","crates/sip-dialog/src/prack_validator.rs"],[("RSeq allocation","crates/sip-dialog/src/lib.rs"),("PRACK matching","crates/sip-dialog/src/prack_validator.rs")],[],["accepted PRACKs","issued numbers"])
p("D04","Session timers fire at the right instants and only for live sessions",
 "A session timer that is not refreshed or stopped signals a refresh at half its interval (only on the refreshing side) and expiry at the full interval, each exactly once. After a stop nothing more is signalled for that session, and after a refresh the old deadlines are dead and the new ones always fire, even when the refresh or stop coincides with a deadline or the process is briefly stalled.",
 [S,F,H],"all interleavings of start, refresh and stop with timer expiry, clock stalls included",
 "Existing tests use short real sleeps and never race a refresh with the deadline.",
 ["crates/sip-dialog/src/session_timer_manager.rs"],[("timer tasks and cancellation","crates/sip-dialog/src/session_timer_manager.rs")],[],["timer events against the virtual clock"])
# ---------------- proxy
p("P01","A forking proxy forwards exactly one best final response upstream",
 "For each proxied request the proxy forwards upstream the first 2xx immediately, otherwise a 6xx, otherwise, once every branch has answered or timed out, the best remaining final (lowest class, credentials challenges merged), and never a second non-2xx final nor any non-2xx after a 2xx. Every 2xx of an INVITE is forwarded, also a later one from another branch; provisional responses are passed on only until a final one is. If every branch ends, by response, transport failure or timeout, some final response is always forwarded, and a request that could not be forwarded anywhere is refused rather than left unanswered.",
 [S,F,H],"all interleavings, repetitions and losses of branch responses, transport errors and timeouts",
 "Tests feed one fixed order of responses sequentially; the rules are about all orders, duplicates and concurrent arrivals.",
 ["crates/sip-proxy/src/stateful.rs","crates/sip-proxy/src/service.rs"],[("response selection","crates/sip-proxy/src/stateful.rs"),("timer C","crates/sip-proxy/src/stateful.rs")],[("branches","per-target state","crates/sip-proxy/src/stateful.rs")],["responses forwarded upstream"])
p("P02","Losing branches are cancelled, finished ones never are",
 "When a 2xx or 6xx decides a forked request, every branch still without a final response gets exactly one CANCEL that matches the request sent on that branch (same branch id, target and CSeq number), and no CANCEL goes to a branch that had already answered finally. A CANCEL carries a single Via, that of the request it cancels. After a 6xx no new branch is started.",
 [S,F,H],"all arrival orders and interleavings of branch responses",
 "Depends on which responses have been processed when the winner arrives.",
 ["crates/sip-proxy/src/service.rs","crates/sip-proxy/src/stateful.rs","crates/sip-proxy/src/cancel_ack.rs"],[("sibling cancellation","crates/sip-proxy/src/stateful.rs")],[],["CANCELs emitted"])
p("P03","A proxy never runs out: old forwarding contexts make room for new requests",
 "A stateful proxy refuses a request for lack of room only if as many contexts as its maximum (10,000) were started within the context lifetime (300 s); however many requests were proxied before, older or finished contexts never keep a new request out, and the number kept stays at the maximum (plus callers deciding at the same moment). A request that cannot be forwarded (no hops left, more branches than allowed) is refused at once and leaves nothing behind.",
 [S,H],"all histories of requests, answers and idle gaps, from any number of threads",
 "Needs tens of thousands of requests and minutes of clock between them; tests proxy a handful.",
 ["crates/sip-proxy/src/stateful.rs","crates/sip-proxy/src/service.rs"],[("start of a context","crates/sip-proxy/src/stateful.rs")],[("contexts","forwarding state by key","crates/sip-proxy/src/stateful.rs")],["refusals","number of contexts"])
# ---------------- user agents
p("U01","Calls set up and torn down over a bad network leave both ends agreeing",
 "When one user agent calls another over a network that loses, duplicates, reorders and delays messages, the callee's application sees one call per INVITE, and once faults stop the call ends in agreement: either both ends hold the same confirmed dialog (same identifiers, opposite roles) or neither does. A BYE removes the dialog on both ends for good and every request either end issues ends with an answer or a timeout within protocol bounds. The outcome the caller is told is the one the callee's application decided (or 487 if it cancelled), an accepted call is acknowledged, all responses to one request carry one To tag, and no two requests an end sends in a call share a CSeq number; no early dialog outlives its INVITE. All of this also holds when every request is challenged for credentials.",
 [S,F,H],"all loss/duplication/reordering/delay histories during set-up and tear-down",
 "No test connects two full user agents over a faulty network.",
 ["crates/sip-uac/src/integrated.rs","crates/sip-uas/src/integrated.rs","crates/sip-transaction/src/manager.rs","crates/sip-dialog/src/lib.rs"],
 [("integrated UAC","crates/sip-uac/src/integrated.rs"),("integrated UAS","crates/sip-uas/src/integrated.rs")],[],["dialogs at both ends","application callbacks"])
p("U02","Authenticated registration completes and never loops or reuses credentials",
 "A client that holds the right password and is challenged ends up registered once the network lets messages through, each attempt carrying a higher CSeq and a fresh credential; with a wrong password it fails after a bounded number of attempts. No request carries two sets of credentials for the realm and no nonce count is sent twice. Loss, duplication and reordering never leave the registrar with a binding the client was told it does not have once traffic settles.",
 [S,F,H],"all fault histories between client, challenge and registrar",
 "The client, authenticator and registrar are only ever tested separately.",
 ["crates/sip-uac/src/integrated.rs","crates/sip-auth/src/lib.rs","crates/sip-registrar/src/lib.rs"],
 [("challenge retry","crates/sip-uac/src/integrated.rs"),("REGISTER handling","crates/sip-registrar/src/lib.rs")],[],["registrar bindings","client results"])
# ---------------- dns
p("S01","Server resolution is ordered, bounded and survives name-server faults",
 "Resolving a SIP destination yields exactly the targets the published records define, in the order they define: numeric hosts and explicit ports and transports are honoured; NAPTR records apply by order then preference, SRV records by ascending priority with equal priorities led in proportion to their weights, and a host's addresses alternate between IPv6 and IPv4 starting with IPv6. DHCP-provided servers are used in the order given, skipping those that cannot be used. When name servers drop, delay, truncate or fail queries, every query ends within the time limit, the resolution falls back on what did answer or reports an error, and it never returns a target that was not published; once they answer again, resolution works again.",
 [F,H,I],"all record sets and all drop/delay/failure patterns of the name-server answers",
 "Tests use static records; timeouts and partial answers need a faulty name server.",
 ["crates/sip-dns/src/lib.rs"],[("NAPTR/SRV/A resolution","crates/sip-dns/src/lib.rs"),("weighted selection","crates/sip-dns/src/lib.rs")],[],["target lists returned"])
# ---------------- observability
p("O01","Metrics stay within their sampling limits and conserve counts under concurrency",
 "Under any concurrency, sampled transport metrics emit a record for no more than every N-th event and never two records closer together than the configured minimum interval, whatever the system clock does, and make the sampled record whenever neither rule forbids it. Transaction and dialog counters always add up: everything started is later counted as ended exactly once, and live counts never go negative.",
 [S,H],"all interleavings of concurrent recorders and clock histories",
 "Lost updates and double emission need racing threads at the interval boundary.",
 ["crates/sip-observe/src/lib.rs","crates/sip-transaction/src/metrics.rs","crates/sip-dialog/src/metrics.rs"],[("sampling gate","crates/sip-observe/src/lib.rs")],[],["emitted records","counter values"])
# ---------------- pure functions: listed, not claimed
p("X01","What is serialised parses back to the same message",
 "Every message, header value and URI the stack can build serialises to bytes that parse back to an equal value, and parsing any bytes never panics.",
 [I],"all messages and all byte strings","Unit tests sample inputs.",
 ["crates/sip-parse/src/lib.rs","crates/sip-core/src/msg.rs","crates/sip-core/src/uri.rs"],[("parser and serialiser","crates/sip-parse/src/lib.rs")])
p("X02","Media negotiation never answers with something that was not offered",
 "An answer generated for a media offer has one line per offered line in the same order, uses only offered formats, and mirrors directions consistently.",
 [I],"all offers and local capabilities","Unit tests sample offers.",
 ["crates/sip-sdp/src/negotiate.rs","crates/sip-core/src/sdp_offer_answer.rs"],[("offer/answer","crates/sip-sdp/src/negotiate.rs")])
p("X03","Signed caller identity verifies exactly when untampered and trusted",
 "An identity token verifies if and only if its signature matches its content and its certificate chains to a trusted root for this purpose at the time given.",
 [I],"all tokens, keys, chains and times","Unit tests sample tokens.",
 ["crates/sip-identity/src/verify.rs","crates/sip-identity/src/chain.rs"],[("signature and chain check","crates/sip-identity/src/chain.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
