#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=list(observe), hook_needed=hook)))
N = "pkg/node/"
S, C, F, I, H, G = "schedules", "crash_points", "fault_sequences", "inputs", "histories", "configurations"

p("C01", "Stored block headers always form one gap-free, linked prefix of the chain",
  "At every moment the headers a node has stored are the blocks at heights 1..tip of one chain: exactly one header per height, no gap, each naming the hash of the one before it, the first naming the network's genesis block. The tip never goes down, not even across storage failures, disconnections, several peers sending overlapping, out-of-order, duplicated or non-linking headers, or a crash and restart on a durable store. Every stored header is readable, with unchanged content, both by its hash and (its hash) by its height.",
  [S, C, F, H], "all interleavings of message handlers and writers, all header/block message orders and batch sizes, storage failures and crash points",
  "The tests check only that a list of heights is increasing (checkHeadersInSequence); nothing runs several handlers, a failing store or a crash against the header pipeline.",
  [N+"cmd_headers.go", N+"cmd_block.go", N+"node.go", "internal/infrastructure/storage/db/pg/header_repository_impl.go", "internal/infrastructure/storage/db/inmemory/header_inmemory.go"],
  [("sequence check of a headers message", N+"cmd_headers.go handleHeaders"), ("block accepted only at tip+1", N+"cmd_block.go handleBlock"), ("single writer of headers", N+"node.go monitorBlockHeaders"), ("unique height / hash constraint", "migration/20220721142449_init.up.sql")],
  [("header repository", "all stored headers", "pkg/repository/header_repository.go")], ["BlockHeaderRepository reads", "NodeService.GetChainTip"])

p("C02", "Header sync catches up with an honest connected peer once faults stop",
  "Once faults stop, a node with at least one connected, responsive peer stores that peer's whole chain within a bounded time: from an empty or a partly filled store, across any number of headers batches, after storage errors, after the peer it was syncing with disconnected while another stayed, and while new blocks keep being announced by headers or inv messages.",
  [S, F, H, G], "all batch sizes, announcement kinds, peer counts, delays, failures of storage operations and of sync peers",
  "The only sync tests need a live regtest node and see one fault-free schedule; no test drops a peer, fails a store call or splits the chain into batches.",
  [N+"chainsync.go", N+"cmd_headers.go", N+"cmd_block.go", N+"handle_ping.go", N+"node.go"],
  [("getheaders from the locator of the stored tip after every batch", N+"cmd_headers.go, "+N+"chainsync.go sync"), ("peer tip raised by announced blocks", N+"cmd_block.go")],
  [], ["headers stored vs. the simulated peer's chain"])

p("C03", "Start returns only once the node really is synced with its peer",
  "Starting a node blocks until the handshake with the initial peer is complete and the store holds every header up to the height that peer announced; it never reports success earlier, whatever the store already held, however messages are delayed. It does report success within a bounded time once that is the case. The daemon accepts subscriptions only after that point.",
  [S, F, H, G], "all message delays, pre-existing store contents (empty, behind, equal), batch sizes and schedules",
  "TestNode needs a live peer, starts from an empty in-memory store and only checks that Start returns.",
  [N+"node.go", N+"chainsync.go", "internal/interface/web-socket/server.go"],
  [("comparison of stored tip, its ancestors and the peer's announced height", N+"chainsync.go synced"), ("Start waits for the sync signal", N+"node.go Start"), ("HTTP server started after the node", "internal/interface/web-socket/server.go Start")],
  [], ["return of NodeService.Start", "first accepted HTTP connection"])

p("C04", "Every stored header gets its compact filter, unchanged, under its own block",
  "For every stored header the node obtains the block's compact filter and stores exactly the bytes the peer served, readable under that block's hash; a filter is never stored under another block. Filters lost to a dropped connection, an unresponsive peer, a failed store operation or a crash are obtained again within a bounded time once faults stop.",
  [S, C, F, H], "all delivery orders, delays, losses of peers, storage failures and crash points between the header write and the filter write",
  "No test drives filter download; the filter repository tests use one handwritten filter in a live database.",
  [N+"node.go", N+"cmd_cfilter.go", "pkg/protocol/msg_cfilter.go", "pkg/repository/filter_repository.go", "internal/infrastructure/storage/db/pg/filter_repository_impl.go", "internal/infrastructure/storage/db/inmemory/filter_inmemory.go"],
  [("filter requested for every header written", N+"node.go monitorBlockHeaders"), ("filter stored on arrival", N+"node.go monitorCFilters")],
  [("filter repository", "filters by block hash", "pkg/repository/filter_repository.go")], ["FilterRepository.GetFilter"])

p("C05", "A watch reports only real matches, each exactly once, in chain order",
  "Every report of the scanner names a transaction that really is in the named block at the named height and really matches the watch that is reported (an output paying the watched script, or an input spending the watched outpoint), at a height not below the watch's start height. A one-shot watch reports only its first matching block; a persistent watch reports every matching transaction from its start height on, each exactly once and in chain order. Transient failures of the header store, filter store or block source and stop/restart never duplicate or reorder reports.",
  [S, F, H, I], "all interleavings of watches, chain growth, scanner passes and stop/start, failures of each store or block request, several matches per block, shared scripts, filter false positives",
  "The scanner tests need a live regtest node and see one or two transactions without failures or concurrent watches.",
  ["pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go", "pkg/scanner/watchitem.go", "pkg/blockservice/service.go"],
  [("matched watch leaves the batch and is re-added one block higher", "pkg/scanner/scanner.go requestWorker"), ("exact match after the filter match", "pkg/scanner/scanner.go extractBlockMatches, watchitem.go Match")],
  [("requestsQueue", "pending watches", "pkg/scanner/requestqueue.go")], ["report channel of scanner.Service"])

p("C06", "No watch is ever lost or starved: every match is eventually reported",
  "Every matching transaction at or above a watch's start height is reported within a bounded time once its block is stored, its filter and the block are obtainable and reports are consumed; also when the watch was added while the scanner was idle, scanning or stopping, other watches have a later or future start height, a filter or block became available only after its header or after later blocks, or a header, filter or block request failed transiently before.",
  [S, F, H], "all interleavings of adding watches with scanner passes (wake-ups), all orders of start heights, availability orders of filters and blocks, transient failures at each request",
  "The scanner tests add one watch at a time on a healthy chain; none fails a request, delays a filter or races Watch with an idle scanner.",
  ["pkg/scanner/scanner.go", "pkg/scanner/requestqueue.go", "pkg/blockservice/service.go"],
  [("wake-up of the idle scanner", "pkg/scanner/requestqueue.go enqueue"), ("unmatched watches go back to the queue", "pkg/scanner/scanner.go requestWorker"), ("picking the next start height", "pkg/scanner/requestqueue.go peek/dequeueAtHeight")],
  [("requestsQueue", "pending watches", "pkg/scanner/requestqueue.go")], ["report channel of scanner.Service"])

p("C07", "Subscribers receive exactly the events of their own descriptors",
  "A connected subscriber (websocket or webhook) receives, for each of its registrations, one event for every transaction and script of the registered descriptor it pays, from the registered start height on, and no event that belongs to another subscriber or to no transaction of the descriptor; none is lost, duplicated or misrouted however many subscribers register, unregister, connect and disconnect concurrently, and also when several subscribers share a descriptor.",
  [S, H, F], "all interleavings of registrations, unregistrations, disconnects, block arrivals and deliveries over many subscribers",
  "The e2e suite needs a live network and three well-behaved clients; no test races registration with events or disconnects.",
  ["internal/core/application/notification_service.go", "internal/interface/web-socket/handler/notification_handler.go", "internal/interface/web-socket/handler/ws_handler.go", "internal/interface/web-socket/handler/http_handler.go", "pkg/scanner/scanner.go"],
  [("client id carried by the watch", "notification_service.go handleOnChainEvents"), ("lookup of the subscriber by id", "notification_handler.go handleOnChainNotifications"), ("writes to one connection serialised", "ws_handler.go sendResponseToSubscriberWs")],
  [("subscribers", "who gets which events", "notification_service.go, notification_handler.go")], ["messages on each websocket, webhook requests"])

p("C08", "One client's failure never affects another client's notifications",
  "Whatever one client does - sends malformed, oversized, binary or unknown requests, an invalid descriptor, disconnects abruptly at any moment (also with events for it pending), stops reading, or registers a webhook that is unreachable, slow or failing - every other client keeps registering and receiving all of its events within a bounded time, the daemon keeps running, and what the failing client holds of it (a request to its webhook, a delivery) is given up within a bounded time.",
  [S, I, F, H], "all kinds of client misbehaviour at every moment relative to registrations and event deliveries of the others",
  "No test has a misbehaving or disconnecting client.",
  ["internal/interface/web-socket/handler/ws_handler.go", "internal/interface/web-socket/handler/notification_handler.go", "internal/interface/web-socket/handler/http_handler.go", "internal/core/application/notification_service.go", "internal/interface/web-socket/server.go"],
  [("one goroutine per connection with recovery", "ws_handler.go handleRequest"), ("webhooks delivered in their own goroutine", "notification_handler.go")],
  [], ["other clients' websocket messages and webhook requests"])

p("C09", "Every client request gets exactly one truthful answer",
  "Each well-formed register or unregister request is answered exactly once: with success if and only if it took effect, otherwise with an error and without effect. An unregister of something not registered and a registration with an invalid descriptor, height or event type are errors. After a successful unregister no event of an earlier registration is delivered (apart from a webhook request already under way), and events resume only by registering again.",
  [S, I, H], "all request sequences per client, pipelined or not, interleaved with event delivery and other clients",
  "No test looks at error answers, at repeated requests or at unregistering.",
  ["internal/interface/web-socket/handler/ws_handler.go", "internal/interface/web-socket/handler/http_handler.go", "internal/core/application/notification_service.go", "internal/core/application/types.go"],
  [("validation of a subscription", "internal/core/application/types.go validate"), ("answer after the service call", "ws_handler.go handleRequest, http_handler.go")],
  [("subscribers", "registered subscribers", "notification_service.go")], ["answers on the websocket / HTTP response bodies"])

p("C10", "TCP segmentation of the bytes from a peer never changes what the node does",
  "A byte stream from a peer has the same effect on the node - headers and filters stored, replies sent, connection kept - whether it arrives in one piece, byte by byte, or in any other segmentation, with any pauses between the segments.",
  [S, F, I], "all segmentations and pauses of every valid message sequence",
  "The decoders are tested on in-memory buffers that always return everything asked for; no test reads from a connection that returns short reads.",
  [N+"node.go", "pkg/binary/unmarshaler.go", "pkg/protocol/msg.go", "pkg/protocol/netaddr.go", "pkg/protocol/blocklocator.go", "pkg/protocol/varint.go"],
  [("message framing", N+"node.go handlePeerMessages"), ("field decoding", "pkg/binary/unmarshaler.go")],
  [], ["stored headers and filters, bytes sent by the node"])

p("C11", "A bad message from a peer is contained: no crash, no desync, no effect",
  "No sequence of bytes from a peer - truncated, oversized, with absurd counts or lengths, a wrong checksum, an unknown command, a payload that does not decode or a header of another network - crashes the node, makes it allocate without bound, stores anything that was not validly received, or affects its other peers. After a complete but unacceptable message the next valid message on that connection is handled normally, unless the node closes the connection.",
  [I, F, S, H], "all malformed, corrupted and unknown messages at all positions of the conversation, with one or several peers",
  "The decoder tests feed a handful of valid buffers; none feeds malformed input or continues a stream after an error.",
  [N+"node.go", "pkg/protocol/msg.go", "pkg/protocol/msg_headers.go", "pkg/protocol/msg_cfilter.go", "pkg/protocol/msg_inv.go", "pkg/protocol/msg_tx.go", "pkg/protocol/msg_block.go", "pkg/protocol/blocklocator.go", N+"cmd_skip.go"],
  [("header validation", "pkg/protocol/msg.go Validate"), ("recovery in the message loop", N+"node.go handlePeerMessages"), ("payload bounded by its declared length", N+"cmd_*.go")],
  [], ["process survival, replies to a ping after the bad message, stored data"])

p("C12", "All the node sends is well-formed, and peers' requests are answered right",
  "The bytes a node writes to a peer are a sequence of complete messages of the right network with a correct length and checksum, never interleaved, although many tasks write to the same connection. Each ping is answered by one pong with the same nonce, each inv by one getdata for exactly the same inventory (of any size), each version by verack and sendheaders, and each getheaders it sends locates its stored chain.",
  [S, I, H], "all interleavings of the tasks writing to a connection, all ping nonces and inventory lists, all back-pressure situations",
  "Single messages are encoded in unit tests; no test has concurrent writers or checks replies.",
  [N+"node.go", N+"cmd_ping.go", N+"cmd_inv.go", N+"cmd_version.go", N+"chainsync.go", N+"handle_ping.go", "pkg/protocol/msg.go", "pkg/protocol/msg_inv.go", "pkg/protocol/msg_getdata.go", "pkg/protocol/msg_getheaders.go"],
  [("one write per message", N+"node.go sendMessage"), ("reply carries the request's nonce / inventory", N+"cmd_ping.go, "+N+"cmd_inv.go")],
  [], ["byte stream received by the simulated peer"])

p("C13", "Dead peers are detected and dropped; healthy peers never are",
  "A peer that answers every ping within the timeout stays connected for ever, whatever the timing of its answers, the number of peers and what other peers do. A peer that stops answering, also one that stops reading or whose network is black-holed, is pinged, disconnected and forgotten within the ping interval plus timeout and a small margin, after which the node works on with the remaining peers.",
  [S, F, H], "all delays of pongs including zero and just within or after the timeout, all orders over several peers, hung, black-holed and closing peers",
  "No test runs long enough for one ping or has a peer that fails to answer.",
  [N+"handle_ping.go", N+"node.go", N+"cmd_pong.go"],
  [("ping ticker and timeout per peer", N+"handle_ping.go monitorPeer"), ("matching of pongs by nonce", N+"handle_ping.go monitorPeers")],
  [("Peers", "connected peers", N+"node.go")], ["state of the connection at the simulated peer"])

p("C14", "Stores are crash-safe: acknowledged writes persist, failed ones leave nothing",
  "On the Postgres store a header batch or filter whose write returned success is readable afterwards, unchanged, in every later process lifetime; one whose write failed is either entirely stored or entirely absent. Writing what is already stored succeeds and changes nothing, also as part of a batch with new headers; every database failure (lost connection, server restart, error reply, at any statement) comes back as an error, never as a crash, a false success, or a false 'not found'.",
  [C, F, S, H], "all failure and crash points between and within statements and the commit, duplicate and overlapping batches",
  "The pg tests run against a healthy live database, one call at a time.",
  ["internal/infrastructure/storage/db/pg/header_repository_impl.go", "internal/infrastructure/storage/db/pg/filter_repository_impl.go", "internal/infrastructure/storage/db/pg/db_service.go"],
  [("one transaction per batch", "header_repository_impl.go WriteHeaders"), ("unique constraint and its error code", "header_repository_impl.go, filter_repository_impl.go")],
  [("block_header, filter tables", "durable state", "pg/migration")], ["repository API results vs. the simulated database's committed rows"])

p("C15", "Both repositories behave as one atomic chain store under concurrency",
  "Concurrent use of a header or filter repository (in-memory or Postgres) is linearizable with respect to a simple model: a header is found by hash and height exactly from its write on, the tip is the highest stored header, the locator starts at the tip and walks back through stored headers with exponentially growing steps, 'has all ancestors' is true exactly when the chain below is complete, a filter is read back as written, and missing things are reported by the same documented error in both implementations. (The entries of one locator may be read one after another, and its first may appear twice.)",
  [S, H, I], "all interleavings of concurrent reads and writes and all contents (empty, gaps, forks, several headers per write)",
  "Only sequential calls on a fixed fixture are tested, and only with a live database.",
  ["internal/infrastructure/storage/db/inmemory/header_inmemory.go", "internal/infrastructure/storage/db/inmemory/filter_inmemory.go", "internal/infrastructure/storage/db/pg/header_repository_impl.go", "internal/infrastructure/storage/db/pg/filter_repository_impl.go", "pkg/repository/header_repository.go", "pkg/repository/filter_repository.go"],
  [("reader/writer lock", "inmemory/*.go"), ("SQL statements", "pg/*.go")], [], ["results of the repository interfaces"])

p("C16", "Stopping always finishes, stops everything, and allows a clean restart",
  "Stopping the node, the scanner, the notification services or the daemon (by signal, at any moment: before or during the initial sync, while idle, during a scan, with clients connected or stalled and events in flight) completes within a bounded time without a crash; afterwards nothing of it runs on, no connection to a peer stays open and nothing more is stored or delivered. A scanner can be started again and continues with its pending watches, and a daemon restarted on the same database continues where it left off.",
  [S, C, F, H], "all moments of the stop request relative to all other activity, repeated stops, restarts",
  "Tests call Stop once on an idle scanner or node at the very end and check nothing afterwards.",
  [N+"node.go", N+"handle_ping.go", N+"mempool.go", "pkg/scanner/scanner.go", "internal/core/application/notification_service.go", "internal/interface/web-socket/handler/notification_handler.go", "internal/interface/web-socket/server.go", "cmd/neutrinod/main.go"],
  [("quit channels", N+"node.go, pkg/scanner/scanner.go, notification_service.go, notification_handler.go"), ("shutdown sequence", "internal/interface/web-socket/server.go")],
  [], ["return of Stop / exit of the daemon", "goroutines and connections left", "later store writes"])

p("C17", "The mempool shows and announces each unconfirmed transaction exactly once",
  "Each transaction the node receives from its peers (announced or pushed, by one or several of them, in any segmentation) reaches the mempool. Each transaction given to the mempool, from however many tasks and however often, is announced to every subscriber once as unconfirmed and is then in the pool until a block containing it is handed over; then it is removed and announced once as confirmed, after its unconfirmed announcement. Subscribers receive all events in one order; slow or absent readers delay nobody else; stopping the mempool ends every subscription without a crash.",
  [S, H], "all interleavings of adding tasks, blocks, subscriptions, slow readers and stop",
  "TestNewMemPool adds ten distinct transactions from one task, sleeps, and only counts the pool.",
  [N+"mempool.go", N+"cmd_tx.go", N+"cmd_inv.go", N+"cmd_block.go"],
  [("pool guarded by a lock", N+"mempool.go addTx/removeTxFromMemPool"), ("fan-out to subscribers", N+"mempool.go notifySubscribers")],
  [("txs", "the pool", N+"mempool.go"), ("txSubscribers", "subscriptions", N+"mempool.go")], ["channels returned by AddSubscriber, GetMemPool"])

CL = "cmd/neutrino/"
p("C18", "The command line client keeps its settings and shows all the daemon tells it",
  "A setting whose change was confirmed is used by every later invocation of the client. An invocation that fails or is interrupted at any moment - killed, power loss, full disk, I/O error, short write - leaves all settings as they were before it or as they are after it, readable; it never reports success for a change that was not made. A subscription connects to the configured address and path, sends exactly the registration asked for, shows each event, message and error of the daemon once and in order, and ends with an error within a bounded time when the daemon is absent, refuses, does not answer, or ends the connection; nothing the daemon sends crashes it.",
  [F, C, I, H], "all sequences of invocations, failures of any file operation, torn and lost writes, interruption before or within any file operation, daemon behaviours and segmentations",
  "No test runs the client; a test of its functions would see a disk that never fails and a process that is never interrupted.",
  [CL+"main.go", CL+"config.go", CL+"subscribe.go"],
  [("read, merge and replace the state file", CL+"main.go setState/replaceState"), ("registration and display loop", CL+"subscribe.go subscribeAction")],
  [("state.json", "the client's settings", CL+"main.go statePath")], ["neutrino config print", "output and exit of neutrino subscribe", "what the daemon receives"])

p("C19", "A sent transaction reaches every live peer, unchanged, exactly once",
  "Sending a transaction delivers exactly that transaction, once, to every peer that is connected and healthy at that time, although other peers are dead, stalled or disconnecting at that moment and other messages are being written; the call returns within a bounded time, and reports an error for input that is not a transaction.",
  [S, F, H], "all peer sets, peer failures at any moment of the call, concurrent senders and disconnects",
  "TestSendTransaction needs one live peer and no failures.",
  [N+"node.go", "pkg/protocol/msg_tx.go", N+"handle_ping.go"],
  [("loop over the connected peers", N+"node.go SendTransaction")], [("Peers", "connected peers", N+"node.go")], ["tx messages received by the simulated peers"])

p("C20", "Filter requests from peers are served exactly as BIP157 demands",
  "A getcfilters request for blocks the node has stored with their filters is answered by one cfilter message per block of the requested range, both ends included, in ascending order, each with that block's hash and exactly the stored filter; requests for an unknown stop block, a start above the stop, a range of 1000 blocks or more or another filter type are answered by nothing and do no harm. This holds while the node itself is syncing, storage fails transiently (then no wrong filter is sent) and peers are slow.",
  [I, S, F, H], "all ranges, moments during sync, storage faults and slow readers",
  "No test sends a getcfilters request.",
  [N+"cmd_getcfilters.go", "pkg/protocol/msg_getcfilters.go", "pkg/protocol/msg_cfilter.go"],
  [("range checks and loop", N+"cmd_getcfilters.go handleGetCFilters")], [], ["cfilter messages received by the simulated peer"])

p("C21", "Wire encoding and decoding of every message are inverse to each other",
  "For each message type decoding the encoding of a value gives the value back, for every value.",
  [I], "all values", "The unit tests hold a few samples.",
  ["pkg/binary/marshaler.go", "pkg/binary/unmarshaler.go", "pkg/protocol/msg.go", "pkg/protocol/varint.go"],
  [("reflection based codec", "pkg/binary")], [], ["Marshal / Decode"])

p("C22", "A descriptor always expands to the scripts the wallet really uses",
  "For every supported descriptor the scripts watched for it are the scripts a wallet with that descriptor derives, for the first 100 indexes of a ranged one.",
  [I], "all descriptors", "The derivation lives in a dependency and is sampled there.",
  ["pkg/scanner/scanner.go"], [("descriptor.Parse and Script", "pkg/scanner/scanner.go WatchDescriptorWallet")], [], ["scanner.Service.WatchDescriptorWallet"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
