#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def p(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe or []))

S, I, H, C, F = "schedules", "inputs", "histories", "configurations", "fault_sequences"
COMMON = "Runs the real code; holds on every execution observed, not on all. "

p("C01", "Framing does not depend on how the byte stream is cut",
  "For every length-field layout a user can configure, the frames a connection hands on are exactly the frames the peer's byte stream contains, in order and byte for byte, however the stream is cut into reads. An oversize frame is dropped whole, without touching its neighbours; a malformed one ends only its own connection and never yields a made-up frame.",
  [I, C], "all byte streams x all cuts x all length-field layouts (field width, offset, adjustment, bytes stripped, byte order, maximum)",
  "The decoder tests feed a few whole frames of one layout; cuts inside headers, oversize frames spread over many reads and unusual layouts are never reached.",
  ["zinterceptor/framedecoder.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "ziface/ilengthfield.go"],
  [("FrameDecoder.Decode accumulates and cuts", "zinterceptor/framedecoder.go"), ("StartReader feeds what it read", "znet/connection.go")],
  "differential monitor: reference frame parser vs real decoder and real server under random cuts", COMMON + "Oracle: an independent parser of the configured layout.", ["handler input", "decoder output"])
p("C02", "Message codecs round-trip and keep their wire layout",
  "Packing a message and unpacking the result gives back the same identifier, length and bytes for both built-in formats, and the packed bytes have the documented layout, so that peers written elsewhere can talk to it. A header that announces more than the configured maximum packet size is refused when unpacked, and one within the limit never is.",
  [I, C], "all identifiers, payloads (empty to large), formats and size limits",
  "Tests pack one or two short messages and check no extreme identifier, length or limit.",
  ["zpack/tlv_pack.go", "zpack/ltv_pack_little.go", "zpack/message.go", "zpack/packfactory.go", "zdecoder/tlvdecoder.go", "zdecoder/ltvdecoder_little.go"],
  [("Pack/Unpack", "zpack/tlv_pack.go, zpack/ltv_pack_little.go"), ("TLVDecoder/LTVDecoder.Intercept", "zdecoder/")],
  "reference-codec monitor on pack/unpack and on real client-server round trips", COMMON + "Oracle: an independent encoder.")
p("C03", "Frames with a checksum are handled only if the checksum matches",
  "With the HTLV+CRC16 decoder, every frame whose checksum is right is handled exactly once with its own header, function code, length and body, for all body lengths the format can express. A frame whose bytes were changed in transit is never handled, and costs at most its own connection.",
  [I, F], "all bodies (0 to 255 bytes) x all corruptions x all cuts",
  "Tests compute the checksum of one frame; they inject no corruption and no maximal body.",
  ["zdecoder/htlvcrcdecoder.go", "zdecoder/crc.go", "zinterceptor/framedecoder.go"],
  [("CheckCRC before the request is passed on", "zdecoder/htlvcrcdecoder.go"), ("CRC16 table", "zdecoder/crc.go")],
  "corruption injection with a bitwise reference CRC as oracle", COMMON + "Corruptions that collide in CRC16 are recognised by the reference and expected to pass.")
p("C04", "Received messages are handled exactly once, in order, one at a time",
  "Every complete message a peer sends on an accepted connection is handled exactly once, with the identifier and bytes that were sent, on that connection and no other, even if the peer closes right after sending. With a worker pool, one connection's messages are handled in the order they were sent and never two at a time; this holds for every transport, worker mode, router style and request-reuse setting.",
  [S, I, C], "all schedules of readers and workers x transports x worker modes x pool and queue sizes x message sizes",
  "Tests send a handful of messages one by one over one TCP connection and check none of order, duplication or payload under load.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/msghandler.go", "znet/request.go", "znet/chainbuilder.go"],
  [("reader -> interceptor chain -> SendMsgToTaskQueue", "znet/connection.go, znet/msghandler.go"), ("one worker per connection (useWorker)", "znet/msghandler.go")],
  "trace monitor (exactly-once, order, mutual exclusion, integrity) at handlers + race detector", COMMON + "Messages are self-describing, so loss, duplication, mixing and tearing show in the handler.")
p("C05", "In the bind modes a blocked handler delays no other connection",
  "In the Bind and DynamicBind worker modes, as long as no more than the configured maximum of connections are open, a handler that blocks holds up only its own connection: the messages of every other connection are still handled. This stays true after any history of connections opening, closing and failing.",
  [S, H, C], "all histories of connections coming and going (with messages still queued) x pool sizes x queue lengths",
  "Tests never block a handler nor reuse workers after connections ended.",
  ["znet/msghandler.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("useWorker/freeWorker hand one worker to one connection", "znet/msghandler.go")],
  "barrier workload: handlers that can only finish if all run at once, after random churn", COMMON + "Progress is judged within 23 s and confirmed by re-running.")
p("C06", "Sent messages arrive intact, in each sender's order, and are not lost",
  "Whatever goroutines send on one connection and whichever sending call they use, the peer receives whole messages only, each at most once, and each sender's messages in the order sent with that call (over WebSocket, in messages a conforming peer accepts: binary ones). A message accepted while the connection stays open arrives; a send that reports an error on an open connection was not delivered; sending on a closed connection reports an error; a queue that has room takes messages; and no send waits for ever for a peer that does not read unless it is a direct send.",
  [S, F, C], "all interleavings of senders, closes and slow peers x transports x both sides x send calls",
  "Tests send from one goroutine and never compare what arrives under concurrent senders or a close.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"],
  [("msgLock around writes", "znet/*connection.go"), ("buffered queue and its writer", "StartWriter, SendToQueue")],
  "offline trace check of per-sender FIFO / at-most-once / integrity at the peer + race detector", COMMON)
p("C07", "Each connection starts once, ends once and releases what it held",
  "For each connection, however and by however many parties it is ended, the start hook runs once before any message is handled, and the stop hook and each registered close callback run exactly once; after that its context is cancelled, its socket is closed towards the peer, it is no longer registered, and its goroutines end. Ending a connection never hangs or panics, not even from inside a handler or hook, with a peer that does not read, or before it has started.",
  [S, H, F], "all interleavings of concurrent ends (peer close, reset, stop calls, malformed input, heartbeat) x transports x sides",
  "Tests close connections one way at a time and check no hook counts.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/server.go", "znet/client.go", "znet/callbacks.go", "znet/connmanager.go"],
  [("finalizer runs once under lock", "znet/*connection.go"), ("callbacks list", "znet/callbacks.go")],
  "lifecycle trace monitor over hooks, contexts, registry, sockets and goroutines under racing ends", COMMON)
p("C08", "Never more than MaxConn connections, and freed places are reused",
  "At no moment are more connections open on a server than its configured maximum, however many peers connect at once and over whichever transports it serves. A place freed by any end of a connection becomes available again, so that a server below its maximum accepts a new peer.",
  [S, H, C], "all interleavings of peers connecting and leaving x transports x limits",
  "Tests never come near the maximum.",
  ["znet/server.go", "znet/connmanager.go"], [("limit check before accept / upgrade", "znet/server.go")],
  "online invariant monitor (open connections counted by hooks) under connection storms", COMMON)
p("C09", "The connection registry knows exactly the open connections",
  "The registry returns for an identifier exactly the connection that is registered under it, lists and counts exactly the registered ones, and a range over it visits each of them once with the caller's arguments and reports the callback's error. Identifiers of connections of one server are unique over all of its transports, clearing it stops every connection, and all of this holds while connections come and go. A connection tells its own identifier and name and the two addresses of its own peer, the same while open and after its end.",
  [S, H], "all sequences and interleavings of registrations, removals, lookups and ranges",
  "Tests add and remove one connection.",
  ["znet/connmanager.go", "zutils/shard_lock_map.go", "znet/server.go"], [("ConnManager over a sharded map", "znet/connmanager.go")],
  "model-based monitor (reference map) with stand-in connections, stable-set monitor under churn, real servers", COMMON)
p("C10", "The sharded map is linearizable and its snapshots keep stable entries",
  "Concurrent single-key operations of the sharded map behave as if they happened one after another: reads, writes, insert-if-absent, conditional removal and take-out all agree on one order. Whole-map reads contain every entry that was there throughout and none that never was, and exporting to JSON and importing again gives the same entries.",
  [S, H], "all interleavings of operations on shared and colliding keys",
  "Tests run operations sequentially or check only the final count.",
  ["zutils/shard_lock_map.go"], [("one lock per shard", "zutils/shard_lock_map.go")],
  "porcupine linearizability check of recorded histories + stable-set monitor + race detector", COMMON + "Linearizability is decided per key on recorded histories.")
p("C11", "Requests are isolated, also when request objects are reused",
  "A handler sees only its own request: identifier, data, connection, decoded response and stored values belong to the message being handled and none is left over from an earlier message, with request reuse on or off. A copy of a request keeps its identifier, data, response and stored values, and stays valid and unchanged after the original's handling has ended. Several goroutines may store and read values of a request, and copy it, at once.",
  [S, H, C], "all interleavings of handled messages x reuse on/off x routers that store, copy and hand over requests",
  "Tests use one request at a time without reuse.",
  ["znet/request.go", "znet/request_func.go", "znet/msghandler.go", "znet/connection.go"], [("pool, Reset and Copy", "znet/request.go")],
  "canary monitor: every request is tainted with its own marks and checked for foreign ones + race detector", COMMON)
p("C12", "Routing runs exactly the registered handlers in the documented order",
  "A message is handled by what is registered for its identifier and by nothing else: router objects run before, main and after steps in that order, handler lists run their global, group and own handlers in registration order, each at most once. Aborting skips all later ones, jumping to a step continues from there, registering an identifier twice is refused, and messages without a registration disturb nothing.",
  [I, H, C], "all registrations (plain, groups, nested use of global handlers) x all scripts of next/abort/goto x messages",
  "Tests exercise single scripts without nesting, aborting at each position or large handler lists.",
  ["znet/router.go", "znet/msghandler.go", "znet/request.go", "znet/server.go"], [("request steps", "znet/request.go"), ("RouterSlices and groups", "znet/router.go")],
  "reference-interpreter monitor: generated routing programs run on the real server, execution traces compared", COMMON)
p("C13", "The interceptor chain runs in order, once per message, on its result",
  "The interceptors of a server or client run once for each message in the order they were added, after the decoder and before routing, and each sees what the one before it passed on. An interceptor that does not pass a message on keeps it from being routed and affects no other message, and a response an interceptor passes on is what later interceptors and the handlers find.",
  [S, I, C], "all chains (pass, modify, drop, respond) x messages x connections at once",
  "Tests build one short chain and call it directly.",
  ["zinterceptor/chain.go", "znet/chainbuilder.go", "znet/msghandler.go", "znet/server.go", "znet/client.go"], [("chain.Proceed copies the position", "zinterceptor/chain.go")],
  "trace monitor of interceptor visits against generated chains under concurrent connections", COMMON)
p("C14", "Hostile input harms only the connection it arrives on",
  "Whatever bytes a peer sends, in whatever pieces, the server process keeps running and the other connections keep being served correctly. The server still accepts new connections afterwards, on every transport.",
  [I, F, C], "all byte streams, truncated and malformed frames and protocol violations x transports x decoders",
  "Tests only send well-formed messages.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "zinterceptor/framedecoder.go", "zdecoder/", "znet/server.go"], [("recover in readers and workers", "znet/*connection.go, znet/msghandler.go")],
  "fuzzed peers beside witness connections whose every message is checked + race detector", COMMON)
p("C15", "A panicking handler does not stop its worker or its connection",
  "When a handler, at whichever step, panics, the process, the worker and all connections go on: the later messages of the same connection and all messages of others are still handled exactly once and in order. This holds for all worker modes, router styles and with request reuse.",
  [S, F, C], "all positions of panics in handlers x worker modes x router styles",
  "Tests contain one panicking router and check nothing after it.",
  ["znet/msghandler.go", "znet/router.go", "znet/defaultrouterfunc.go"], [("recover in doMsgHandler", "znet/msghandler.go")],
  "fault injection (panics at random steps) under the exactly-once/order monitor", COMMON)
p("C16", "Heartbeat ends silent connections and never active ones",
  "With heartbeats on, a connection from which nothing is received for the configured maximum is treated as dead within a bounded time, by calling the user's handler or else by closing it, even if the peer reads nothing. A connection on which data keeps arriving within that time is never treated as dead; heartbeat messages go out at the configured interval with the configured identifier and content, and stop when the connection ends.",
  [S, H, C], "all timings of traffic and silence x intervals x custom messages, handlers and routers",
  "Tests only wait a few seconds and log.",
  ["znet/heartbeat.go", "znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go", "znet/server.go", "znet/client.go"], [("check loop on a ticker", "znet/heartbeat.go"), ("last activity", "znet/*connection.go")],
  "timed trace monitor (silence/activity vs verdict) on real connections", COMMON + "Timing bounds have slack of several intervals; stall verdicts are confirmed by re-running.")
p("C17", "Timers fire exactly once, not early, and not after cancellation",
  "A scheduled function is called exactly once with its arguments, not before its due time (less the documented 100 ms) and within a bounded delay after it, whatever other timers are scheduled, cancelled or firing. A timer cancelled before it was due never fires, cancelling one cancels no other, and a panicking function stops no other.",
  [S, I, H], "all sets of delays (milliseconds to days, colliding slots) x cancellations x concurrent scheduling",
  "Tests schedule a few timers in real seconds and look at the log.",
  ["ztimer/timewheel.go", "ztimer/timerscheduler.go", "ztimer/timer.go", "ztimer/delayfunc.go"], [("hierarchical time wheels", "ztimer/timewheel.go"), ("scheduler poll", "ztimer/timerscheduler.go")],
  "virtual-time (synctest) trace monitor of firings against due times + real-time race runs", COMMON + "Virtual time comes from Go's testing/synctest.")
p("C18", "Generated identifiers are unique and increasing",
  "One identifier generator used by any number of goroutines never returns the same identifier twice and returns increasing ones, also when thousands are drawn in one millisecond. Generators with different numbers never return the same identifier, and invalid generator numbers are refused.",
  [S, I], "all interleavings of callers x generator numbers x drawing rates",
  "Tests draw a few identifiers from one goroutine.",
  ["zutils/snowflake_uuid.go"], [("lock, sequence and wait for the next millisecond", "zutils/snowflake_uuid.go")],
  "uniqueness/monotonicity monitor over concurrent draws, in real and virtual time", COMMON)
p("C19", "The log file writer loses, tears and duplicates no line",
  "Every line written to a log file writer is found exactly once and whole in the files it leaves after it is closed, each writer's lines in order, through rotations by size and by date, compression, concurrent writers, flushing, closing and reopening. A new file is begun when the date has changed or the next line would exceed the set size, which no file does unless by a single line. Retention removes only log files of its own that were begun longer ago than the configured limit, and never other files.",
  [S, H, C], "all interleavings of writers, rotation, flushing and closing x size limits x retention settings",
  "Tests write a few lines and look at them by eye.",
  ["zutils/witer.go", "zlog/logger_core.go"], [("buffer + daemon + rotation", "zutils/")],
  "conservation check over the files a stress run leaves", COMMON)
p("C20", "Log lines are whole, filtered by level and seen by the hook",
  "Every logging call at or above the set level produces exactly one whole line with its level, prefix, place of call and text, as the flags ask for, in the output, calls below it produce none, and lines of concurrent callers never mix. The hook sees exactly the lines that are written, and the logger may be reconfigured at any time.",
  [S, C], "all interleavings of callers and reconfigurations x levels x flags",
  "Tests print some lines from one goroutine without checking the output.",
  ["zlog/logger_core.go", "zlog/stdzlog.go", "zlog/default.go"], [("OutPut under the logger's lock", "zlog/logger_core.go")],
  "line-conservation monitor on captured output and hook + race detector", COMMON)
p("C21", "Notifications reach exactly the registered connections",
  "A notification by identifier is sent once to the connection registered under it and to no other; a notification to all is sent once to each registered connection, and a failing connection does not keep it from the others. Registering an identifier again replaces its connection, a removed one gets nothing more, and all of this holds under concurrent use.",
  [S, H], "all sequences and interleavings of registration, removal and notification, with failing connections",
  "Tests notify a few connections once.",
  ["znotify/notify.go"], [("map of identifiers to connections", "znotify/notify.go")],
  "model-based monitor with recording stand-in connections and real servers + race detector", COMMON)
p("C22", "Async operations of one key run once, in order, one at a time",
  "Every operation handed to the asynchronous processor runs exactly once; operations with the same key run one at a time in the order they were handed in, while a blocked key does not hold up keys served by other workers. A panicking operation stops neither its worker nor the operations after it.",
  [S, I, F], "all interleavings of submitters x keys (negative, large, colliding) x panics",
  "Tests submit a few operations with one key.",
  ["zasync_op/async_op.go", "zasync_op/async_worker.go"], [("key modulo workers, one queue each", "zasync_op/")],
  "exactly-once / per-key FIFO / mutual exclusion trace monitor with injected panics + race detector", COMMON)
p("C23", "An async result's callback runs exactly once, with the result",
  "However setting the result and registering the callback interleave, while the connection stays open the callback runs exactly once, on the handling goroutine of the connection's worker like a message of that connection, and finds the value that was set. Only the first value and the first callback count.",
  [S], "all interleavings of setting and registering x worker modes",
  "The test covers one order of the two calls.",
  ["zasync_op/async_op_result.go", "znet/msghandler.go", "znet/request_func.go"], [("compare-and-swap of completion", "zasync_op/async_op_result.go")],
  "exactly-once monitor under racing set/register on real connections + race detector", COMMON)
p("C24", "Stopping a server stops everything it serves",
  "Stopping a server makes it accept no further connection on any of its transports and frees its ports, and ends every open connection, with the stop hook once for each, however busy they are and however many connect meanwhile. It returns in bounded time and leaves no connection open and nothing listening or accepting afterwards. Serving goes on until the process is told to end (interrupt or termination signal), and then ends.",
  [S, H, C], "all moments of stopping under load x transports x worker modes",
  "Tests never stop a loaded server.",
  ["znet/server.go", "znet/connmanager.go"], [("exitChan and ClearConn", "znet/server.go")],
  "lifecycle monitor over sockets, hooks and registry while stopping under storms", COMMON)
p("C25", "A client connects, restarts and stops cleanly at any moment",
  "A started client connects and runs its start hook once per connection, on every transport; stopping it at any moment, any number of times and from anywhere, returns, ends its connection with one stop hook, and leaves nothing running once the server has answered or refused an attempt under way. Restarting it gives one new connection that works like the first, and a failed attempt to connect is reported.",
  [S, H, F], "all sequences and interleavings of start, restart and stop x server behaviour (absent, refusing, slow)",
  "Tests start a client against a running server once.",
  ["znet/client.go", "znet/connection.go", "znet/ws_connection.go"], [("Start/Restart/Stop", "znet/client.go")],
  "lifecycle trace monitor over client histories against scripted servers + race detector", COMMON)
p("C26", "Area-of-interest queries return exactly the nearby players",
  "In the game demo's area-of-interest manager, every position inside the area belongs to exactly one grid, the surrounding grids of a grid are exactly the up to nine that touch it, and a query at a position returns exactly the players in those grids. Moving, adding and removing players keeps each player in the grid it is in, also under concurrent use.",
  [I, H, S], "all areas and grid counts x positions x sequences of player moves",
  "Tests print the surroundings of one fixed area.",
  ["zinx_app_demo/mmo_game/core/aoi.go", "zinx_app_demo/mmo_game/core/grid.go"], [("grid arithmetic", "zinx_app_demo/mmo_game/core/aoi.go")],
  "geometric reference model compared with the real manager over generated areas and histories", COMMON)
p("C27", "Configuration: what the user sets takes effect, the rest keeps defaults",
  "Each setting given in a configuration file, or in a configuration object passed to a server (where zero means not given, except for on/off settings and the log level), takes effect on what the server then does, and each one not given keeps its default. A missing file leaves the defaults, and a broken one is reported rather than half applied. Every workable combination gives a server that starts and serves.",
  [I, C], "all subsets of settings and values x file and object",
  "Tests load one file and print it.",
  ["zconf/zconf.go", "zconf/userconf.go", "zconf/env.go", "znet/server.go"], [("Reload and UserConfToGlobal", "zconf/")],
  "reference-merge monitor over generated configurations in fresh processes", COMMON)
p("C28", "Connection properties behave like a map, also under concurrent use",
  "The properties of a connection behave like one map for any number of goroutines: a read returns the last value written or reports that there is none, and removed ones are gone. Properties of different connections never mix, setting one works at any time, including in the start hook, and they outlive the connection: stop hook, close callbacks and late users still find them, and no use of them panics or hangs.",
  [S, H], "all interleavings of set, get and remove on all transports, also while the connection ends",
  "Tests set one property in a hook.",
  ["znet/connection.go", "znet/ws_connection.go", "znet/kcp_connection.go"], [("property map and lock", "znet/*connection.go")],
  "porcupine linearizability check of property histories on real connections + race detector", COMMON)
p("C29", "WebSocket authentication decides who gets in, one peer at a time",
  "With an authentication function set, a WebSocket peer becomes a connection only if that function was called with that peer's own request and returned no error. A refused one gets the HTTP status 401, is never upgraded, and shows up in no hook, handler or registry, nor does it take anybody's place; an allowed one is served. What the function leaves in its request's context is found from the connection it belongs to and from no other, however many peers arrive at once.",
  [S, I], "all interleavings of refused, unknown and allowed peers, with and without subprotocols, also at the connection limit",
  "Tests never set an authentication function.",
  ["znet/server.go", "znet/ws_connection.go"], [("auth, upgrade, admit", "znet/server.go ListenWebsocketConn"), ("connection context from the request", "znet/ws_connection.go")],
  "trace monitor over token-carrying peers arriving at once: outcome, hooks, handlers and contexts per peer + race detector", COMMON)

p("C30", "The game demo tells each player what happens around it",
  "A player who logs in to the game demo (zinx_app_demo/mmo_game) is told its own identifier, its position and the players around it. When players arrive, move, talk and leave one after another, exactly the players who then see it are told, once and with the right identifier and position, who came into view, who moved and who went out of view, and a chat line reaches every player online once. However many players come, move, talk and leave at once, the game keeps serving each of them, and nobody who has left remains in anybody's surroundings.",
  [S, H], "all histories of logins, moves, chats and leavings, one at a time and many at once",
  "No test runs the demo.",
  ["zinx_app_demo/mmo_game/server.go", "zinx_app_demo/mmo_game/core/player.go", "zinx_app_demo/mmo_game/core/world_manager.go", "zinx_app_demo/mmo_game/core/aoi.go", "zinx_app_demo/mmo_game/core/grid.go", "zinx_app_demo/mmo_game/api/move.go", "zinx_app_demo/mmo_game/api/world_chat.go"], [("login, move, leave", "zinx_app_demo/mmo_game/core/player.go"), ("areas", "zinx_app_demo/mmo_game/core/aoi.go")],
  "real demo process under the race detector; every message each player receives compared with an area model after each step, and after storms of players coming, moving, talking and leaving at once", COMMON)

def main():
    have = set()
    for f in os.listdir(os.path.join(root, "harness")):
        if f.endswith(".go"):
            have |= set(re.findall(r'Property:\s*"(C\d\d)"', open(os.path.join(root, "harness", f)).read()))
    with open(os.path.join(root, "properties.jsonl"), "w") as o:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            o.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]], observe_at=q["observe"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
    for q in P:
        if q["id"] in have:
            cmd = "bash run.sh " + q["id"]
            m["checks"].append(dict(property=q["id"], quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, technique=q["tech"], level="exploration", level_note=q["note"]))
        else:
            m["not_applicable"].append(dict(property=q["id"], reason="the check for this property is not built yet"))
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
    import jsonschema
    sch = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
    for l in open(os.path.join(root, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch("PROPERTIES"))
    jsonschema.validate(json.load(open(os.path.join(root, "MANIFEST.json"))), sch("MANIFEST"))
    print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not built")
main()
