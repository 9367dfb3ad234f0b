prop("C01", "Inbound framing: each sent frame reaches its handler once, intact",
 "Every complete frame a peer sends over TCP, WebSocket or KCP is delivered exactly once, with exactly its payload, to the handler registered for its message id, however the byte stream is cut into segments, reads and messages; no handler ever sees data that was not sent as one frame. A frame larger than the configured maximum frame length is dropped and the frames after it still arrive; one whose checksum does not match (HTLV+CRC) is never handled. Without a decoder the handler sees exactly the bytes sent, in order.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "every frame sequence, codec (TLV, LTV, HTLV+CRC, any length-field layout), read-buffer size, segmentation, network delay, loss (KCP) and goroutine schedule",
 "The unit tests feed the decoders a few hand-cut buffers; they never cut a stream everywhere, run several connections at once, or let the worker run while the reader goes on.",
 ["zinterceptor/framedecoder.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go", "zdecoder/htlvcrcdecoder.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/msghandler.go"],
 [("length-field reassembly", "zinterceptor/framedecoder.go"), ("reader loop per connection", "znet/connection.go StartReader"), ("decoder as an interceptor", "zdecoder")],
 ["arguments of the registered handlers"])
prop("C02", "Messages of one connection are handled in order, one at a time",
 "With the worker pool on (Hash, Bind or DynamicBind), the handlers for the messages of one connection run strictly one after another, in the order the peer sent the messages. This holds while other connections open, send and close.",
 ["schedules", "configurations", "inputs"], "every schedule of readers, workers and connection churn, every worker mode, pool and queue size, on TCP, WebSocket and KCP",
 "Order and mutual exclusion are properties of the interleaving of reader and worker goroutines; the tests run one connection on the real scheduler.",
 ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
 [("one queue per worker", "znet/msghandler.go StartOneWorker"), ("one worker per connection", "znet/msghandler.go useWorker")],
 ["entry and exit of handlers"])
prop("C03", "Outbound: whole frames, in order, exactly once for accepted sends",
 "The byte stream a peer receives is a sequence of whole frames, each of them a message passed to one of the connection's send operations, with its payload intact, whatever mix of direct and buffered sends runs concurrently. Messages one goroutine sends through the same operation arrive in the order of the calls, none twice. While the connection stays open and the peer reads, every message whose send reported success arrives. The data pack reads back the head of every frame as it was sent and refuses a head that is cut off or announces more than the maximum packet size.",
 ["schedules", "inputs", "fault_sequences", "configurations"], "every interleaving of direct and buffered senders, payload sizes across the write buffer size, slow or stalled peers, small socket buffers, lossy datagrams, connection close at any point",
 "Interleaving inside a frame needs two senders, a full write buffer and a particular schedule; the tests send a handful of small messages.",
 ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "zpack"],
 [("write buffer and writer goroutine", "znet/connection.go StartWriter"), ("send lock", "znet/ws_connection.go")],
 ["bytes on the wire at the peer"])
prop("C04", "Connection life cycle: start hook first, stop hook and close callbacks once",
 "For every accepted connection the start hook runs exactly once, before any of its messages is handled; when the connection ends, for whatever reason and however many causes coincide, the stop hook runs exactly once, after the start hook, and every close callback that was added and not removed runs exactly once, in the order added. After Stop, or after the peer went away, the teardown completes in bounded time even when the peer has stopped reading: the socket is closed, the connection is gone from the connection manager and its context is done; from then on it is not alive and every send on it returns an error at once.",
 ["schedules", "fault_sequences", "histories"], "every order and coincidence of peer close, reset, Stop from handlers, hooks, heartbeats and other goroutines, callback registration, blocked sends, on TCP, WebSocket and KCP",
 "Exactly-once under several concurrent causes of closing is decided by the schedule; tests close each connection once, from one side.",
 ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/callbacks.go", "znet/heartbeat.go", "znet/server.go"],
 [("context cancellation then finalizer", "znet/connection.go"), ("close callback list", "znet/callbacks.go")],
 ["hooks", "callbacks", "peer's end of the socket", "connection manager"])
prop("C05", "The connection manager lists exactly the live connections, ids are unique",
 "Every connection of a server has an id different from that of every other connection it ever accepted. The connection manager finds a connection under its id (as number and as string) from its start hook until its teardown, counts and enumerates exactly the connections that are live, and after all connections have ended it is empty. Enumerating or clearing the manager while connections come and go never fails, blocks or skips a connection that is live throughout.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of accepts, closes, lookups, enumerations and clears over TCP and WebSocket listeners of one server",
 "Tests add and look up connections sequentially; atomicity between accept, teardown and enumeration is a matter of schedules.",
 ["znet/connmanager.go", "znet/server.go", "zutils/shard_lock_map.go"],
 [("sharded map keyed by id string", "znet/connmanager.go"), ("id counter", "znet/server.go")],
 ["IConnManager", "IConnection ids"])
prop("C06", "MaxConn is never exceeded, and capacity comes back",
 "At no instant does a server serve more connections than its configured maximum, however many peers connect at once and over whichever of its listeners. A peer over the limit is kept waiting or has its connection closed, and none of its messages is handled until it has been admitted. Once connections end, as many new ones are accepted as the maximum allows, after any history of churn.",
 ["schedules", "histories", "fault_sequences"], "every burst of simultaneous dials on TCP, WebSocket and KCP, every pattern of churn and abrupt closes around the limit",
 "The limit is a check-then-act on the accept path; only particular coincidences of accepts and closes expose it.",
 ["znet/server.go", "znet/connmanager.go", "znet/acceptdelay.go"],
 [("count before accept", "znet/server.go ListenTcpConn"), ("removal at teardown", "znet/connection.go finalizer")],
 ["connection manager count", "started and not yet stopped connections", "messages handled"])
prop("C07", "Heartbeat: a silent peer is detected in time, a live one is left alone",
 "With a heartbeat checker, a peer from which nothing arrives for longer than the configured maximum is reported to the not-alive handler (by default: disconnected) within the maximum plus one check interval; a peer that sends anything at least once per maximum is never reported. Each live connection is sent a heartbeat once per interval, and after a connection has ended its checker sends and reports nothing.",
 ["schedules", "fault_sequences", "histories"], "every pattern of traffic, silence, network delay, stall of the peer's reading, close and schedule, on TCP, WebSocket and KCP, server and client side",
 "It is a statement about long stretches of time and about coincidences at its bounds; tests wait a few real seconds.",
 ["znet/heartbeat.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/server.go", "znet/client.go"],
 [("interval ticker", "znet/heartbeat.go"), ("last activity time", "znet/connection.go updateActivity")],
 ["heartbeat frames at the peer", "not-alive calls", "closes"])
prop("C08", "Bound workers: a handler that blocks delays no other live connection",
 "In Bind and DynamicBind mode, while at most the configured maximum of connections is open, no two live connections share a worker: a handler that blocks on one connection never delays the messages of another. This still holds after any history of connections opening, blocking and closing.",
 ["schedules", "histories", "configurations"], "every history of opens and closes within the limit, every placement of blocking handlers, every pool size",
 "Sharing shows only after particular churn and only while a handler blocks.",
 ["znet/msghandler.go", "znet/connection.go"],
 [("free worker sets", "znet/msghandler.go useWorker/freeWorker")],
 ["time from send to handler entry"])
prop("C09", "Panics and malformed input are contained in the connection that caused them",
 "Whatever bytes a peer sends, and whenever a handler, interceptor, hook, callback or heartbeat function panics, the process keeps running, the server keeps accepting, and other connections keep being served in full. A handler that panics loses at most its own message; later messages of the same connection are still handled.",
 ["inputs", "fault_sequences", "schedules"], "every byte string as input on every transport and decoder, panics at every user callback, concurrently with normal traffic on other connections",
 "Tests send well-formed input and their handlers do not panic.",
 ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "zinterceptor/framedecoder.go", "zdecoder"],
 [("recover in workers, readers and Start", "znet")],
 ["process survival", "service to other connections", "memory growth"])
prop("C10", "Stopping a server ends its connections and listeners in bounded time",
 "When Stop is called on a running server, at any moment and with any traffic in flight, it returns in bounded time; from then on no new connection is served, every connection it had served ends with its stop hook run exactly once, and its ports are released, all within a bounded time. Connections being accepted while Stop runs are no exception. Calling Stop again, also at the same moment, is harmless; a stopped server can be started again and then serves as before; other servers of the process are not disturbed.",
 ["schedules", "fault_sequences"], "every moment of Stop relative to accepts, traffic, blocked sends, handlers and closes, on TCP, WebSocket and KCP; every sequence of starts and stops of several servers",
 "Tests never stop a server with connections arriving.",
 ["znet/server.go", "znet/connmanager.go"],
 [("exit channel", "znet/server.go"), ("ClearConn", "znet/connmanager.go")],
 ["Stop returning", "peers' sockets", "hooks", "listening ports"])
prop("C11", "Async operations: in order per id, completion once on the connection's worker",
 "Operations submitted under one id run one at a time, in the order submitted, each exactly once; a panicking operation does not stop those after it. For a connection of a server with a worker pool that stays open the completion callback of an operation runs exactly once, on the worker that runs that connection's handlers and never while one of them runs, and it sees the result that was set; setting a result or a callback again has no effect. This holds whether the result or the callback is set first or both at the same moment.",
 ["schedules", "histories"], "every interleaving of submission, execution, result and callback registration and handler execution; connections closing meanwhile",
 "The hand-over between two goroutines and a worker is a race that the tests run once.",
 ["zasync_op/async_op.go", "zasync_op/async_op_result.go", "zasync_op/async_worker.go", "znet/msghandler.go", "znet/request_func.go"],
 [("one goroutine per id slot", "zasync_op/async_worker.go"), ("flags by compare-and-swap", "zasync_op/async_op_result.go")],
 ["operations and callbacks"])
prop("C12", "Timers fire exactly once, on time, and never after being cancelled",
 "Every timer given to the automatic timer scheduler runs its function exactly once, not earlier than its due time by more than the scheduler's resolution of 100 ms and not later than a small bound, for delays from milliseconds to days and whatever other timers are added or cancelled. A timer cancelled more than that resolution before it is due never runs. Timers survive crossing from hours to minutes to seconds wheels without being lost, doubled or delayed.",
 ["schedules", "histories", "inputs"], "every set of delays, every moment of adding and cancelling relative to the turning of the wheels, every schedule of wheel goroutines and callers",
 "Tests can wait for seconds; wheel cascades happen at minutes and hours.",
 ["ztimer/timer.go", "ztimer/timewheel.go", "ztimer/timerscheduler.go", "ztimer/delayfunc.go"],
 [("hierarchical time wheels", "ztimer/timewheel.go"), ("scheduler goroutine", "ztimer/timerscheduler.go")],
 ["calls of the timer functions"])
prop("C13", "The sharded map is linearizable per key and enumerates faithfully",
 "Concurrent operations on the sharded concurrent map (set, get, has, remove, pop, count, set-if-absent and the callback variants) behave, per key, as if executed one at a time in an order consistent with real time. Enumerations (items, keys, iterator, callbacks, clear) return every key that is present throughout with a value it held, no key twice and no key that was never there, terminate, and leave no lock held.",
 ["schedules", "histories"], "every interleaving of every mix of operations over few keys, including enumeration while keys change",
 "Linearizability quantifies over schedules; the tests run mostly sequential sequences.",
 ["zutils/shard_lock_map.go"],
 [("one RWMutex per shard", "zutils/shard_lock_map.go")],
 ["results of the operations"])
prop("C14", "Generated ids are unique and increasing, also when the clock jumps",
 "The id generator never returns the same id twice from one worker, and ids returned by one worker to callers that do not overlap in time increase, for any number of concurrent callers, any burst rate, and any movement of the wall clock: when the clock has gone backwards it reports an error, promptly, rather than returning a repeated id, and once the clock has caught up ids come again. Workers with different ids never produce the same id.",
 ["schedules", "fault_sequences"], "every interleaving of callers, every sequence of clock steps forwards and backwards, bursts over the per-millisecond sequence space",
 "The sequence overflow and the clock going back need control of the clock.",
 ["zutils/snowflake_uuid.go"],
 [("mutex, last timestamp, sequence", "zutils/snowflake_uuid.go")],
 ["returned ids"])
prop("C15", "The log file keeps every accepted line whole and in order, through rotation",
 "Every line logged by concurrent callers appears exactly once, whole and unmixed with others, in the log file or one of its rotated files or archives, in an order consistent with each caller's, within the flush period of 5 s; with rotation by size and by day (no file exceeds the maximum size unless a single line does, none goes on over midnight), and while rotated files are compressed and old archives deleted by retention, which deletes nothing else. When the process dies at any moment, every line accepted more than the flush period before is in the files, and a restarted process goes on without damaging them; a fatal or panic line is in the file, with all lines before it, when the process exits or the panic starts. File-system errors never crash or block the process nor cost lines written well before or after them, and logging resumes once they stop.",
 ["schedules", "crash_points", "fault_sequences", "inputs"], "every interleaving of loggers with rotation, closing and flushing, every failing or partial file operation, every crash point between and inside file operations, every passing of midnight",
 "Rotation happens at sizes and dates tests do not reach, and no test makes the file system fail or the process die.",
 ["zutils/witer.go", "zlog/logger_core.go"],
 [("mutex in writer and logger", "zutils/witer.go, zlog/logger_core.go"), ("rename, compress, remove, reopen", "zutils/witer.go rotate")],
 ["contents of the log directory", "results of the log calls"])
prop("C16", "Requests are isolated from each other, pooled or not",
 "What a handler reads from its request (connection, message id, data, values set on it, interceptor response) belongs to that message alone, for as long as the handler runs, and with request pooling on as well as off: nothing set while handling one message is visible in another. A copy made of a request keeps its message id, data, values and interceptor response unchanged after the original is done and re-used (a copy deliberately has no connection).",
 ["schedules", "inputs", "configurations"], "every interleaving of connections and workers re-using pooled requests, handlers that keep copies in other goroutines, every routing mode",
 "Re-use of a pooled object shows only under particular schedules.",
 ["znet/request.go", "znet/msghandler.go", "znet/router.go"],
 [("sync.Pool and Reset", "znet/request.go")],
 ["request accessors in handlers and in copies"])
prop("C17", "Notification reaches exactly the registered connections",
 "A broadcast delivers its message exactly once per registered id to every connection that is registered with the notifier throughout, open, and able to take the send, and to none that is not registered; a targeted notification reaches exactly the connection registered under that id; notifications one goroutine sends through the same operation arrive in the order of the calls. Registering, replacing and deleting ids concurrently with broadcasts never crashes, blocks or misdirects, and one connection whose peer does not read does not keep the others from being notified through the buffered operations.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of registration, deletion, broadcasts and connection closes",
 "Concurrent registration and broadcast is a schedule property.",
 ["znotify/notify.go", "zutils/shard_lock_map.go"],
 [("sharded map of connections", "znotify/notify.go")],
 ["frames at the peers"])
prop("C18", "Interceptors and router steps run in their order, for each message separately",
 "Each message passes the interceptors in the order they were added, once each, before its handler runs, and one that does not proceed keeps the message from the handler. Router steps run in the order pre-handle, handle, post-handle; slice routers run global, group and own handlers in order; an abort stops the remaining steps of that message only. A second registration of an id, and one outside its group's range, is refused by a panic and changes nothing. This holds for messages processed concurrently on many connections.",
 ["schedules", "inputs", "configurations"], "every mix of concurrent messages over chains and routers of every shape, with and without pooling",
 "The tests run one message at a time through a chain.",
 ["znet/chainbuilder.go", "zinterceptor/chain.go", "znet/request.go", "znet/router.go", "znet/msghandler.go"],
 [("chain with index", "zinterceptor/chain.go"), ("step counter in the request", "znet/request.go")],
 ["calls of interceptors and handlers"])
prop("C19", "Client: connects, reports failures, restarts and stops cleanly",
 "A TCP or WebSocket client that is started establishes one connection when the server is reachable and reports a failure on its error channel when it is not (or does not answer the TLS or WebSocket handshake), without blocking or crashing the program. Restart gives a working new connection after the old one has ended, a stopped client can be started again, and Stop ends the client's connection in bounded time, at whatever moment it is called, with stop hook and close callbacks run exactly once per connection whose start hook ran. This does not depend on the worker mode.",
 ["schedules", "fault_sequences", "histories"], "every moment of Stop, Restart and connection loss relative to dialling, refused, lost and slow dials, on TCP and WebSocket",
 "Tests start one client against a reachable server.",
 ["znet/client.go"],
 [("exit channel and error channel", "znet/client.go")],
 ["hooks", "peer side of the connection", "returns of Start, Restart, Stop"])
prop("C20", "Connection properties behave as one atomic map per connection",
 "Set, get and remove of a property on a connection behave, for concurrent callers, as operations executed one at a time in an order consistent with real time, and properties of one connection are never visible on another.",
 ["schedules", "histories"], "every interleaving of operations over few keys and connections, on TCP, WebSocket and KCP",
 "Linearizability quantifies over schedules.",
 ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
 [("property lock", "znet/connection.go")],
 ["results of the operations"])
prop("C21", "The server outlives accept errors and refused load",
 "When accepting connections fails, any number of times and with any error other than the listener being closed, the server backs off and goes on: once errors stop, peers are served again within a bounded time. While errors last it does not spin: a listener that keeps failing is tried about 50 times a second at most. This holds for the TCP and the WebSocket listener.",
 ["fault_sequences", "schedules"], "every sequence of accept errors (out of descriptors, aborted connections) interleaved with normal connections and with running at the connection limit",
 "No test makes accept fail.",
 ["znet/server.go", "znet/acceptdelay.go"],
 [("exponential accept delay", "znet/acceptdelay.go")],
 ["time to service after the last error", "number of accept attempts"])
prop("C22", "A peer that stops reading holds up neither buffered senders nor other peers",
 "A buffered send returns within a small bound, with success or an error, even when the peer has stopped reading and all buffers are full; handlers, sends, hooks and closes on other connections go on undisturbed. When the peer reads again, what was accepted flows out in order.",
 ["schedules", "fault_sequences", "configurations"], "every mix of stalled and reading peers, buffer and queue sizes, moments of stall and resume, on TCP, WebSocket and KCP",
 "A stalled peer with full buffers and concurrent senders is not something the tests set up.",
 ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
 [("bounded queue with 5 ms timeout", "znet SendBuffMsg")],
 ["duration of calls", "service to other connections"])
prop("C23", "WebSocket handshakes are authenticated and negotiated one by one",
 "With an authentication function set, a WebSocket request that it refuses (by an error or a panic) is never upgraded: no start hook, handler or stop hook runs for it, and a refusal is answered with status 401. A request it accepts is upgraded and served, and the connection's context shows what the function put into that request's context, never another's. A peer that offers subprotocols is given one of its own offers, whatever other handshakes are under way; one that offers none is given none. Refused, failing and malformed handshakes leave no connection behind and do not disturb others.",
 ["schedules", "inputs", "fault_sequences"], "every interleaving of simultaneous handshakes with different credentials, context values and subprotocol offers, of slow, refusing and panicking authentication functions, and of malformed requests",
 "The tests open no two WebSocket connections at once; whether one handshake can influence another is a matter of interleavings.",
 ["znet/server.go", "znet/ws_connection.go"],
 [("request context handed to the connection", "znet/ws_connection.go newWebsocketConn"), ("per-request negotiation", "znet/server.go ListenWebsocketConn")],
 ["result of the handshake", "hooks and handlers", "connection context"])
prop("C24", "A configuration sets what it names, keeps the rest, and takes effect",
 "Loading a configuration file, or creating a server with a user configuration, gives every field named (in a user configuration: not zero; its KcpStreamMode and log level count in any case) its value and leaves every other field as it was; without any the documented defaults hold. A file that cannot be read or is not valid JSON changes nothing. The server made next listens on exactly the configured ports in the configured mode and WebSocket path, has the configured name, serves up to the configured number of connections, and its log goes to the configured file or standard error, from the configured level on, in files of the configured size.",
 ["configurations", "inputs", "fault_sequences"], "every sequence of configuration files and user configurations, with every subset of fields and mode, and with errors of the file system or a damaged file in between",
 "The tests never load a configuration file or combine several configurations; what a field does shows only in a running server.",
 ["zconf/zconf.go", "zconf/userconf.go", "zconf/env.go", "znet/server.go", "zlog"],
 [("reload of the file", "zconf/zconf.go Reload"), ("merge of a user configuration", "zconf/userconf.go UserConfToGlobal"), ("server fields from the configuration", "znet/server.go newServerWithConfig")],
 ["fields of the global configuration", "listening ports", "served connections", "log output"])
prop("C25", "Log calls write whole lines with their own header, at enabled levels only",
 "Every log call at or above the level in effect (package functions, the default logger, or a logger object) writes exactly one whole line: prefix, date, time, level and call site as the flags ask for, then its own text; a call below the level writes nothing. Lines of concurrent callers never mix, lines of one caller are in order, and a line whose logger is being reconfigured shows a state in effect during the call. The line goes to the log file if one is set (and to standard error as well if asked), else to standard error; a log hook is given each line once. Panic calls panic after their line is written.",
 ["schedules", "inputs", "configurations"], "every interleaving of logging goroutines with changes of level, flags and prefix, every combination of flags, method, text and time",
 "Whether the header and text of concurrent lines belong together is a matter of schedules; the tests only print.",
 ["zlog/logger_core.go", "zlog/stdzlog.go", "zlog/default.go"],
 [("one buffer under one lock", "zlog/logger_core.go OutPut"), ("isolation level", "zlog/logger_core.go verifyLogIsolation")],
 ["bytes on standard error and in the log file", "the log hook"])
prop("C26", "What has ended leaves nothing running: goroutines, workers, sockets",
 "However many connections have come and gone, and however they ended, none of them leaves anything behind: once its handlers and hooks have returned, every goroutine that was started for it (reader, writer, heartbeat, the worker or session made for it) ends within a bounded time, and its socket is closed. The same holds for refused and broken handshakes, for the connections of a client whether it is stopped or restarted, and for a server: started and stopped any number of times it has no more running than the first time.",
 ["schedules", "histories", "fault_sequences"], "every history of connections opening, talking, stalling, panicking and ending in every way and order, of client restarts and of server starts and stops, on TCP, TLS, WebSocket and KCP and in every worker mode",
 "A test sees one connection end; a goroutine that stays behind in a rare interleaving of closing, sending and heartbeat only shows in a census of the whole process after many of them.",
 ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/heartbeat.go", "znet/msghandler.go", "znet/client.go", "znet/server.go"],
 [("context of the connection ends reader and writer", "znet StartReader, StartWriter"), ("checker stopped in the teardown", "znet/heartbeat.go Stop"), ("extra worker stopped by closing its queue", "znet/msghandler.go freeWorker"), ("listeners end on the exit channel", "znet/server.go")],
 ["goroutines of the process, by the function that started them", "the peers' sockets"])

prop("C27", "MMO demo: players see who is around them, chat reaches all, the gone are gone",
 "The game world of zinx_app_demo/mmo_game, as its clients see it: every player gets an id of its own and a place. A line of chat is heard exactly once by every player that is online, wherever it is. A move is told exactly once to everyone in the nine grids around the new place, the mover included, and to nobody else. When arrivals, moves and departures do not overlap, each player sees exactly the others in the nine grids around it, where they are: who comes near appears, who goes away or leaves disappears, for both sides. However they overlap, once things are quiet the world holds exactly the players online, and each is in the one grid of its place; a place beyond the map counts to the grid at its edge. A player that leaves in the middle of a move, a message that cannot be decoded and a place off the map do not disturb the others.",
 ["schedules", "histories", "fault_sequences"], "every history and interleaving of players joining, moving (off the map too), talking, sending nonsense and leaving by close or reset, in every worker mode, on TCP and WebSocket",
 "The demo has one test of the grid arithmetic; who sees whom after a history of moves, and what remains of one that leaves while it moves, depends on the interleaving of handlers and hooks of many connections.",
 ["zinx_app_demo/mmo_game/server.go", "zinx_app_demo/mmo_game/core/player.go", "zinx_app_demo/mmo_game/core/aoi.go", "zinx_app_demo/mmo_game/core/grid.go", "zinx_app_demo/mmo_game/core/world_manager.go", "zinx_app_demo/mmo_game/api/move.go", "zinx_app_demo/mmo_game/api/world_chat.go"],
 [("grid of a place", "core/aoi.go GetGIDByPos"), ("nine grids", "core/aoi.go GetSurroundGrIDsByGID"), ("change of grid", "core/player.go UpdatePos, OnExchangeAoiGrID"), ("leaving", "core/player.go LostConnection")],
 ["messages 1, 200, 201 and 202 at the clients", "WorldMgrObj's players and grids"])
