#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts can be edited in one readable place)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

prop("C01", "Proxied traffic reaches the other side unchanged",
     "In an established session every well-framed message the client sends reaches the database, and every one the database sends reaches the client, byte for byte, in order, exactly once. "
     "This holds for every kind of message of PostgreSQL protocol 3 in either direction (simple and extended query, COPY, every authentication exchange, notices, unknown types) and however the bytes are split into network writes. "
     "What a receiver has got is at every moment a prefix of what the sender sent.",
     ["inputs", "histories"],
     "every sequence of well-framed messages in both directions, every message type and body (including bodies that are malformed for their type), every chunking and interleaving",
     "The server tests never relay a single message; the connection tests relay one made-up message type. Messages whose type byte means different things in the two directions, and authentication variants, are not sampled at all.",
     ["pkg/server/session.go", "pkg/pg/conn.go", "pkg/pg/*_message.go", "pkg/pg/standard_frame.go"],
     [("decode/dispatch by type byte", "pkg/pg/conn.go RecvMessage"), ("pumps and dispatcher", "pkg/server/session.go"), ("re-encoding", "pkg/pg/*_message.go Frame")],
     [("message queues", "messages accepted from one side and not yet written to the other", "pkg/server/session.go clientIn/clientOut/dbIn/dbOut")],
     ["bytes received by a fake database and by the client"])

prop("C02", "Concurrent sessions never mix",
     "Each accepted client connection is served by a database connection of its own, and bytes of one session never show up in another, in either direction. "
     "Sessions starting, streaming and ending in any order do not delay, alter or end each other.",
     ["schedules", "histories"],
     "every number of simultaneous sessions and every interleaving of their starts, messages and ends",
     "No test runs two sessions at once; sharing of buffers, connections or parameters between sessions only shows with several sessions in flight.",
     ["pkg/server/server.go", "pkg/server/session.go", "pkg/pg/standard_frame.go", "pkg/pg/conn.go"],
     [("one session object per accepted connection", "pkg/server/server.go ServeConn"), ("fresh buffer per frame", "pkg/pg/standard_frame.go ReadStandardFrame"), ("session registry under a lock", "pkg/server/server.go registerSession/removeSession")],
     [("active sessions", "sessions being served now", "pkg/server/server.go sessions")],
     ["per-session byte streams at the fake database and at each client"])

prop("C03", "Only the configured database can be reached through the proxy",
     "A start-up request whose target database, as a PostgreSQL server would understand the request, is not the one named by the configured database URL is never passed on to the database server. "
     "The client gets an error response and its connection is closed; a request for the configured database is passed on.",
     ["inputs"],
     "every start-up request: any parameters in any order, repeated parameters, near-miss names, and every configured database name",
     "No test sends a start-up request through a session, so the check is never exercised, let alone with repeated or unusual parameters.",
     ["pkg/server/session.go", "pkg/pg/startup_message.go", "pkg/pg/dsn.go", "README.md"],
     [("database name check before dialling", "pkg/server/session.go negotiateSessionParams"), ("start-up parameter lookup", "pkg/pg/startup_message.go GetParameter"), ("configured name", "pkg/pg/dsn.go ParseDatabaseURI")],
     None,
     ["whether a fake database receives a start-up packet", "bytes the client receives"])

prop("C04", "Session start-up is negotiated and forwarded faithfully",
     "Every SSL request a client sends before its start-up request is answered with exactly one refusal byte, however many it sends, without the proxy crashing or growing. "
     "A protocol 3.0 start-up request for the configured database is then delivered to the database server byte for byte and before anything else; a request for any other protocol version or with a malformed body never reaches the database and ends the session.",
     ["inputs", "histories"],
     "every number of SSL requests, every set and order of start-up parameters, every protocol version, every chunking of the bytes, with or without further data pipelined behind the start-up request",
     "Start-up parsing is tested on two captured packets; the negotiation loop is not tested.",
     ["pkg/server/session.go", "pkg/pg/startup_message.go", "pkg/pg/startup_frame.go"],
     [("negotiation", "pkg/server/session.go negotiateSessionParams"), ("start-up decode/encode", "pkg/pg/startup_message.go"), ("forwarding", "pkg/server/session.go establishDBConnection")],
     None,
     ["bytes received by the client and by the fake database"])

prop("C05", "A session ends when either side hangs up, after delivering what was sent",
     "When the client or the database hangs up, at any moment and in any way, the proxy ends the session: it closes the connection to the other side, the call serving the session returns, and nothing of the session keeps running. "
     "Complete messages the departing side sent before an orderly hang-up are delivered to the other side before its connection is closed. "
     "The proxy process and the other sessions are unaffected.",
     ["schedules", "crash_points"],
     "every moment of the session (start-up, idle, mid-message, streaming), either side, orderly or abrupt disconnect, every goroutine interleaving",
     "No test ends a session from the network side; the existing ones only check registration and closing of idle connections.",
     ["pkg/server/session.go", "pkg/server/server.go"],
     [("pumps and dispatcher ending together", "pkg/server/session.go Start"), ("one-shot close", "pkg/server/session.go Close")],
     [("session channels", "queues whose closing ends the pumps", "pkg/server/session.go")],
     ["end-of-stream at the surviving side", "return of the serving call", "goroutines left over"])

prop("C06", "A stalled direction never blocks the other direction",
     "While messages in one direction of a session cannot be delivered because their receiver is not reading, messages in the other direction keep being delivered. "
     "In particular a client that pipelines any number of requests while reading the replies always gets all of them.",
     ["schedules", "histories"],
     "every amount and size of queued messages in the stalled direction and every amount of traffic in the other direction",
     "It needs full queues and socket buffers in one direction at once with traffic in the other; no test relays traffic.",
     ["pkg/server/session.go"],
     [("independent forwarding of the two directions", "pkg/server/session.go")],
     [("message queues", "bounded queues between pumps and dispatcher", "pkg/server/session.go")],
     ["messages delivered while the opposite receiver does not read"])

prop("C07", "The server can be closed at any moment, cleanly",
     "Closing the server at any moment, any number of times and concurrently with anything else, returns without crashing the process, and leaves no listener, client connection, database connection or running session behind. "
     "The start call then returns the server-closed error, as does every later attempt to start or serve, and later configuration updates are harmless.",
     ["schedules", "crash_points"],
     "every interleaving of closing with starting, accepting, session start-up, relaying, dialling the database and configuration changes",
     "Tests close an idle server once; the windows between checking for shutdown and registering a listener, session or goroutine are never hit.",
     ["pkg/server/server.go", "pkg/server/session.go", "pkg/server/run.go"],
     [("shutdown event and lock", "pkg/server/server.go Close/changeListener/registerSession/do"), ("watchdog", "pkg/server/server.go Close"), ("session close", "pkg/server/session.go Close")],
     [("listener, sessions, goroutine count", "everything the server owns", "pkg/server/server.go")],
     ["return values", "peer end-of-stream", "connectability of addresses", "leftover goroutines"])

prop("C08", "The proxy listens where the latest configuration says",
     "After any sequence of configuration updates the proxy accepts connections at the listen address of the latest update whose address could be bound, and at no earlier address. "
     "An update whose address cannot be bound changes nothing, and sessions already established survive every change of address.",
     ["histories", "schedules"],
     "every sequence and timing of updates over valid, repeated, busy and invalid addresses, with sessions open across the changes",
     "One test makes a single change of address, waiting for it to finish.",
     ["pkg/server/server.go", "pkg/server/config_distributor.go"],
     [("listener replacement", "pkg/server/server.go Start/Serve/changeListener"), ("listen-change subscription", "pkg/server/server.go Start")],
     [("current listener", "the only socket accepting clients", "pkg/server/server.go listener")],
     ["connecting to each address after the updates"])

prop("C09", "Each new session uses the configuration in force when it starts",
     "A start-up request received after a configuration update has taken effect is checked against, and connected to, the database of that update (host, port and database name). "
     "Sessions started before the update stay on the database they started with.",
     ["histories"],
     "every sequence of database URL changes interleaved with clients connecting, starting up and exchanging messages",
     "No test starts a session against any database, so caching of the configuration across sessions is not covered.",
     ["pkg/server/session.go", "pkg/server/config_distributor.go", "pkg/pg/dsn.go"],
     [("per-session cached connection parameters", "pkg/server/session.go getDBConnnectionParam"), ("current configuration", "pkg/server/config_distributor.go Get")],
     [("cached connection parameters", "database URL of this session", "pkg/server/session.go dbConnectionParams")],
     ["which fake database receives which start-up packet"])

prop("C10", "Configuration subscribers see exactly the relevant updates, in order",
     "A subscriber immediately gets the configuration in force (if any) and then every later update, each exactly once and in order, restricted to those for which one of its change checks accepts the previous and the new configuration (no checks accept all). "
     "After it unsubscribes, or the distributor is closed or its source ends, nothing more is delivered; subscribing the same channel again replaces its checks.",
     ["histories"],
     "every sequence of updates, subscriptions with any checks, re-subscriptions, unsubscriptions and closings",
     "Three tests sample three short fixed sequences with at most two subscribers.",
     ["pkg/server/config_distributor.go"],
     [("fan-out", "pkg/server/config_distributor.go notifySubscribersLocked/shouldSendUpdatedConfig"), ("registration", "pkg/server/config_distributor.go Subscribe/Unsubscribe")],
     [("subscriptions, last configuration", "who gets what", "pkg/server/config_distributor.go")],
     ["values received on each subscribed channel"])

prop("C11", "Configuration access never deadlocks and never goes back in time",
     "Whatever the interleaving of readers, subscribers, unsubscribers and closers with arriving updates, every call returns: a read as soon as there is a configuration or the distributor is closed, closing and unsubscribing even while an update is being handed to a subscriber that no longer reads. "
     "A read never returns a configuration older than one already returned or delivered, and after closing every read and subscription fails with the closed error.",
     ["schedules"],
     "every interleaving of concurrent calls and updates, including ones arriving in the instant between checking for a configuration and waiting for one",
     "Tests issue calls one after another with the timing a test happens to get; the deadlocks need particular interleavings.",
     ["pkg/server/config_distributor.go", "pkg/server/event.go"],
     [("wait for first configuration", "pkg/server/config_distributor.go Get/waitForNextConfig"), ("lock around fan-out", "pkg/server/config_distributor.go monitorConfig")],
     [("last configuration", "what reads return", "pkg/server/config_distributor.go lastConfig")],
     ["return of every call", "values returned"])

prop("C12", "Edits to the configuration file take effect; bad edits are ignored",
     "After any sequence of edits made by rewriting the configuration file in place, the running proxy ends up with the configuration of the last valid contents once the editing stops, without a restart. "
     "Contents that are not a valid configuration (unparsable, or without a listen address, including the empty file seen midway through a rewrite) are ignored and never disturb the running proxy or its sessions.",
     ["histories", "schedules"],
     "every sequence of valid and invalid rewrites, in one or several writes, truncating or not, at any pace",
     "One test writes the file once more through an open handle; truncation, invalid contents and bursts are not covered, nor is the path from the file to the listening server.",
     ["pkg/cli/file_watcher.go", "pkg/cli/watch_server_config.go", "pkg/cli/read_server_config.go", "pkg/cli/cli.go", "pkg/server/server.go"],
     [("file watcher", "pkg/cli/file_watcher.go"), ("reload", "pkg/cli/watch_server_config.go"), ("validation", "pkg/cli/read_server_config.go")],
     None,
     ["where the gevulot program accepts connections and to which database it connects them"])

prop("C13", "The command line decides what runs and the exit status says how it went",
     "Help and version requests print what was asked for and exit 0 without starting a server; an unknown flag, a stray argument, or a missing, unreadable or invalid configuration file is reported on standard error with exit status 1, again without starting one. "
     "Otherwise the proxy starts with the named configuration file, by default the one in the current directory, whatever the order and spelling of the accepted flags.",
     ["inputs", "configurations"],
     "every combination, order and spelling of flags, every configuration file content and location",
     "The tests try three single flags and one configuration file, and never from another working directory.",
     ["pkg/cli/cli.go", "pkg/cli/run.go", "pkg/cli/read_server_config.go", "main.go", "README.md"],
     [("argument parsing", "pkg/cli/cli.go parseArgs"), ("exit codes", "pkg/cli/cli.go Run, main.go"), ("configuration loading", "pkg/cli/read_server_config.go")],
     None,
     ["exit status, standard output and error of the program, and whether it listens"])

prop("C14", "Every protocol message encodes and decodes exactly as the wire format says",
     "For each supported message kind, encoding any valid value yields exactly the bytes the PostgreSQL protocol prescribes for it, and decoding those bytes yields the same value back, distinguishing NULL from empty and preserving every field, sign and order. "
     "Decoded messages keep their value when further messages are read from the same connection.",
     ["inputs"],
     "every message kind and every field value the protocol allows (strings without NUL, up to the maximum number of columns, all integer values)",
     "Each kind is tested with one captured packet; extreme counts, negative numbers, empty values and unusual bytes are not sampled.",
     ["pkg/pg/*_message.go", "pkg/pg/write_buffer.go", "pkg/pg/read_buffer.go", "pkg/pg/standard_frame.go", "pkg/pg/startup_frame.go"],
     [("encoders", "pkg/pg/*_message.go Frame"), ("decoders", "pkg/pg/*_message.go Parse*")],
     None,
     ["bytes and decoded values against an independent encoder"])

prop("C15", "Malformed messages are rejected cleanly",
     "Decoding any message body, however malformed, either yields a message or an error; it never crashes, never reads outside the body, and never uses memory out of proportion to the bytes received. "
     "A message of another kind, or one whose counts or lengths are negative or exceed the body, is always an error.",
     ["inputs"],
     "every byte string as the body of every message kind",
     "Malformed bodies are not tested at all, apart from a wrong type byte.",
     ["pkg/pg/*_message.go", "pkg/pg/read_buffer.go"],
     [("bounds checks", "pkg/pg/read_buffer.go ReadBytes"), ("count and type checks", "pkg/pg/*_message.go Parse*")],
     None,
     ["result, panic, bytes allocated, against an independent strict decoder"])

prop("C16", "Reading a frame consumes exactly that frame",
     "Reading from a byte stream yields its frames one by one, each with exactly the declared number of bytes, independently of how the stream is chunked, and leaves the rest of the stream untouched. "
     "A stream that ends inside a frame, or a declared length smaller than the length field itself, gives an error and never a frame.",
     ["inputs", "histories"],
     "every sequence of frames, every chunking, every truncation point and every declared length, for ordinary and start-up frames",
     "One well-formed frame delivered in one piece is tested for each kind.",
     ["pkg/pg/standard_frame.go", "pkg/pg/startup_frame.go", "pkg/pg/conn.go"],
     [("header decode and copy", "pkg/pg/standard_frame.go ReadStandardFrame, pkg/pg/startup_frame.go ReadStartupFrame")],
     None,
     ["frames returned and bytes left in the reader"])

prop("C17", "Wire buffers decode all or nothing and invert encoding",
     "Values written to a write buffer in any order are read back equal, in the same order, by the matching reads. "
     "A read that cannot be satisfied, including one asking for a negative amount, returns an error and leaves the buffer as it was; every successful read consumes exactly the bytes of its value.",
     ["histories"],
     "every sequence of writes and reads of every primitive type, with any buffer contents and any requested counts",
     "Each primitive has one success and one failure case.",
     ["pkg/pg/read_buffer.go", "pkg/pg/write_buffer.go"],
     [("single bounds check", "pkg/pg/read_buffer.go ReadBytes"), ("appends", "pkg/pg/write_buffer.go")],
     None,
     ["returned values, errors and remaining length against a model"])

prop("C18", "Database URLs are understood the way PostgreSQL clients understand them",
     "From any valid postgres:// or postgresql:// URL the proxy derives exactly the user, password, host, port, database and extra parameters it names, undoing percent-encoding and IPv6 brackets, letting query parameters override, and filling in the documented defaults (localhost, 5432, the operating-system user, and the database named like the user). "
     "Anything with another scheme or not a URL is rejected with an error.",
     ["inputs"],
     "every combination of present and absent parts, every character in them after encoding, IPv4, IPv6 and named hosts, and any query parameters",
     "Eight valid and two invalid URLs are listed, none with encoded characters, IPv6 hosts or overriding parameters.",
     ["pkg/pg/dsn.go"],
     [("URL decomposition and defaults", "pkg/pg/dsn.go ParseDatabaseURI")],
     None,
     ["the returned parameter map"])

prop("C19", "The database inspector reports every user table or an error",
     "The object-id mapping the inspector returns contains every ordinary, partitioned or foreign table, view and materialized view outside the system schemas (information_schema and names starting with pg_), each under its own id with its own schema and name, and nothing else. "
     "If the database reports an error or the connection breaks at any point of the answer, the caller gets an error, never a partial mapping.",
     ["inputs", "fault_sequences"],
     "every catalogue content (schema and table names, relation kinds, ids up to the 32-bit maximum) and every point at which the answer can fail",
     "The tests need a live PostgreSQL server with two tables in one schema, and none breaks the connection; they are not run here at all.",
     ["pkg/pgmeta/inspector.go"],
     [("catalogue query", "pkg/pgmeta/inspector.go OIDTableMapping"), ("row scan and error propagation", "pkg/pgmeta/inspector.go OIDTableMapping")],
     None,
     ["returned mapping or error, against a simulated PostgreSQL server"])

prop("C20", "A one-time event fires exactly once for everyone",
     "Of any number of concurrent attempts to fire a one-time event exactly one is told it was the one that fired. "
     "Once any attempt has returned, every observer sees the event as fired and its completion channel closed, forever; before the first attempt nobody does. "
     "At no moment does anyone find the completion channel closed and then see the event as not fired.",
     ["schedules"],
     "every number of concurrent firers and observers and every interleaving",
     "Tests fire the event sequentially from one goroutine.",
     ["pkg/server/event.go"],
     [("once and atomic flag", "pkg/server/event.go Fire/HasFired/Done")],
     [("fired flag and done channel", "whether the event has happened", "pkg/server/event.go")],
     ["return values and observations of all goroutines"])

prop("C21", "No peer can bring the proxy down",
     "Whatever bytes a client or a database server sends, at any stage and in any chunks, the proxy process keeps running, other sessions keep relaying unchanged, and new clients are still served. "
     "A byte stream the proxy refuses costs at most the session it arrived on.",
     ["inputs", "histories"],
     "every byte stream from either side: random, mutated from valid traffic, with hostile lengths and counts, floods of negotiation requests",
     "No test feeds malformed traffic to a session; a crash in one session takes down the process with all others.",
     ["pkg/server/session.go", "pkg/server/server.go", "pkg/pg/conn.go", "pkg/pg/*_message.go", "pkg/pg/read_buffer.go"],
     [("decode errors end the session", "pkg/server/session.go pumps"), ("bounds checks", "pkg/pg/read_buffer.go")],
     None,
     ["survival of the process, of a witness session and of new sessions"])

prop("C22", "A slow receiver slows its sender instead of filling memory",
     "If one side of a session stops reading, the proxy stops accepting messages from the other side after a bounded number of them, and keeps that bound however much the sender would like to send. "
     "When the receiver resumes, everything that was sent arrives, complete and in order.",
     ["histories", "schedules"],
     "every pattern of stalls and resumptions of either receiver against a sender with any amount of data",
     "No test relays traffic, let alone against a stalled receiver.",
     ["pkg/server/session.go"],
     [("bounded queues", "pkg/server/session.go NewSession")],
     [("message queues", "bounded queues between pumps and dispatcher", "pkg/server/session.go")],
     ["messages accepted from the sender while the receiver is stalled"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
