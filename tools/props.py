# One entry per property; gen.py turns this table into properties.jsonl and MANIFEST.json.
AI = "abstract interpretation of the SSA form: path-sensitive value-flow analysis over hash-consed value terms"
TRUST = ("Decided on go/ssa built from /repo's current source, for all values at once; nothing is executed and no solver is used. "
         "Trusts go/types and go/ssa, the models of standard-library calls in checker/models.go (listed in DESIGN.md) and single-threaded evaluation of one call at a time; "
         "anything the analysis cannot resolve is reported as a violation, never passed. ")

def P(id, title, statement, over, forall, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                mech=mech, technique=technique, note=TRUST + note)

CLAIMED = [
P("C01", "Framing and byte stuffing are lossless",
  "Every packet leaves as one frame: a 0x7e, the packet's bytes with each 0x7e written as 0x7d 0x02 and each 0x7d as 0x7d 0x01, and a closing 0x7e, so that no 0x7e occurs inside. The receiving side restores exactly the bytes the sender framed, whatever values they have and however they are combined.",
  ["inputs"], "for every packet content, in particular every arrangement of the bytes 0x7e, 0x7d, 0x01 and 0x02 (header, body, check byte)",
  "tests frame a handful of fixed packets; the interesting cases are adjacent and trailing special bytes, special check bytes and re-expansion of bytes that only look escaped",
  ["internal/protocol/packet_codec.go"], "escape/unescape in the packet codec",
  AI + "; byte-class words", "Words of byte classes {0x7e, 0x7d, 0x01, 0x02, any other} up to the bound in the evidence are decided exhaustively with the 'other' bytes symbolic; longer packets are decided for words of each kind (ordinary, one special byte at the ends and in the middle, dense) at the lengths around every constant the codec compares with."),
P("C02", "Check byte covers header and body, and bad packets are dropped",
  "The last byte of every packet sent is the exclusive-or of all bytes of its header and body. A received packet is handed to message handling exactly when its last byte is the exclusive-or of all bytes before it; otherwise it is rejected with an error and causes no reply and no state change.",
  ["inputs"], "for every packet content and every corruption of it",
  "a test checks a few good packets and perhaps one corrupt one; a checksum that skips a byte or accepts a class of wrong bytes agrees with all of them",
  ["internal/protocol/packet_codec.go"], "checksum generation and verification in the packet codec",
  AI + "; exclusive-or normal form over byte words", "Exhaustive over byte-class words up to the bound in the evidence."),
P("C03", "Frames are cut from the byte stream exactly, for any segmentation",
  "However the network splits or joins the byte stream, each receive returns the next complete delimited frame, with its delimiters, all its bytes and nothing else, and leaves the following bytes for the next receive; two adjacent delimiters where a frame starts are an empty frame, returned as such. When the stream ends or fails before a frame is complete, an error is reported and no frame is handed on.",
  ["inputs", "schedules"], "for every byte stream and every way it arrives in reads",
  "tests feed one whole frame from a mock connection; partial reads, several frames in one read and end of stream inside a frame need specific arrivals",
  ["internal/protocol/frame_handler.go"], "delimiter scanning over the buffered connection reader",
  AI + "; the receive loop as an automaton over byte-class streams", "Streams of byte classes up to the bound in the evidence; the buffered reader is modelled by its contract (delivers the stream in order), which is what makes the result independent of segmentation."),
P("C04", "Message headers are encoded and decoded at the documented bits",
  "Decoding a header yields message id, body length, encryption, fragmentation and version bits, phone number, serial number and fragment numbers from the bit positions the protocol documents for its version, and encoding writes them to the same positions. The body length field of every message sent equals the length of its body; a body that does not fit is refused with an error. Headers the platform generates carry the terminal's own phone and protocol version.",
  ["inputs"], "for every header value, both header layouts, fragmented or not, and every message body",
  "tests round-trip single examples; swapped or truncated bits agree on most sample values",
  ["internal/protocol/model/header.go", "internal/protocol/model", "internal/protocol/packet_codec.go"], "header and body attribute codec",
  AI + " at bit granularity", "Each field is compared as a term over the packet's bytes, so equality holds for all values."),
P("C05", "Message bodies are encoded and decoded at the documented layout",
  "For every supported message and each protocol version, decoding takes each field from exactly its documented bytes, and encoding writes each field in documented order and width, padded or length-prefixed as documented; decoding a zero-padded text field drops its trailing zero bytes and nothing else. Fixed-width BCD numbers keep all their digits, leading zeros included.",
  ["inputs"], "for every message type, every protocol version and every field value",
  "tests round-trip one sample per message through the same code, which hides a field that is misplaced or truncated on both sides",
  ["internal/protocol/model", "internal/codec/hex/hex.go"], "message body codecs",
  AI + " against a layout table", "The layout table in checker/rules_codec.go is the oracle (written from the JT/T 808 documents in the repository and the field comments); text transcoding (GBK) is an uninterpreted function, so its values are not judged."),
P("C06", "Every reply answers exactly the request that caused it",
  "A reply is addressed to the phone that sent the request, carries the request's serial number (in its header and as the answered number) and, in general replies, its message id, uses the request's header version, and reports success (authentication and registration results aside) when handling succeeded. A reply is produced exactly for the messages that require one; a part of an unfinished fragmented message is acknowledged by itself.",
  ["inputs", "histories"], "for every request, whatever its serial number, phone and content, in every state of the device registry",
  "tests look at one reply for one request; a reply that takes a field from the wrong place agrees on the sampled values",
  ["internal/protocol/msg_processor.go", "internal/protocol/model"], "reply generation from the incoming header",
  AI, "The body decoders are replaced by their contract (C05). Serial numbers of platform-originated messages and fragment acknowledgements are C18."),
P("C07", "Messages are dispatched by id to the documented type; others are refused",
  "Each supported message id is decoded as its documented message type and answered with its documented reply type and id. A message with any other id is refused with the unsupported-id error, gets no reply and changes nothing.",
  ["inputs"], "for all 65536 message ids, whole or fragmented",
  "tests cover a few ids; a wrong row or a default that accepts unknown ids shows only for the ids nobody sampled",
  ["internal/protocol/msg_processor.go", "README.md"], "processor options table",
  AI + ", per table row and once for all remaining ids", "The table in checker/rules_process.go (from README.md) is the oracle."),
P("C08", "Messages from an unregistered terminal are refused and close the link",
  "A heartbeat, logout, authentication or position report (or part of one) from a phone that is not registered is refused with the device-not-found error, gets no reply and changes no terminal, position, parameter or session record. The connection it came on is then closed and forgotten.",
  ["inputs", "histories"], "for every such message and every registry state in which its phone is absent",
  "the absence of every effect on every path cannot be sampled",
  ["internal/protocol/msg_processor.go", "internal/protocol/pipeline.go", "internal/server/tcp_server.go"], "registry lookup before any effect; error flow to the connection loop",
  AI + " and effect analysis", "A part of a fragmented message has passed the packet decoder, which buffers it, before it is refused; the fragment buffer is not one of the records named."),
P("C09", "Registration admits each plate and phone at most once",
  "A registration is answered with success exactly when neither its plate nor its phone is registered; a taken plate is answered with code 1, otherwise a taken phone with code 3, and then nothing is stored. A successful one stores a record holding the message's phone and plate, the requesting connection and the authentication code that was sent, and starts its keepalive supervision; checking and storing are one atomic step, so concurrent registrations cannot both win.",
  ["inputs", "histories", "schedules"], "for every registration message, registry state and interleaving of registrations",
  "tests run one registration after another; two at once, or a conflict on the second key only, are not sampled",
  ["internal/protocol/msg_processor.go", "internal/storage/device_cache.go"], "registration handler and the registry's insert",
  AI + "; must-hold-lock analysis from the lookups to the insertion", ""),
P("C10", "A terminal comes online only by presenting its authentication code",
  "An authentication whose code equals the one issued at registration is answered with success and makes the terminal online, bound to the connection it arrived on; any other code is answered with failure and withdraws the registration. No other message makes a terminal online.",
  ["inputs", "histories"], "for every message and every stored device record",
  "tests authenticate once with the right code; comparison shortcuts and other paths to online need particular values",
  ["internal/protocol/msg_processor.go"], "authentication handler",
  AI + " and effect analysis", "One known finding: a terminal's own 0x8001 with result 0 sets it online (known_findings.txt)."),
P("C11", "Logout removes every trace of the terminal",
  "After a registered terminal's logout, it is no longer found by phone or by plate, its position history is gone and its keepalive supervision is cancelled, and the logout is answered with success. The same phone and plate can then register again.",
  ["inputs", "histories"], "for every registered terminal and registry state",
  "a test looks at one index after one logout; the other index, history and timer are not looked at",
  ["internal/protocol/msg_processor.go", "internal/storage"], "logout handler",
  AI + " and effect analysis", ""),
P("C24", "Whole frames are written to the right connection, or an error is reported",
  "Sending hands every byte of the frame to the terminal's connection, once and in order; the first write already offers the whole frame, so frames of concurrent senders cannot interleave unless the connection itself writes short. A failed write is reported to the caller. Nothing else writes to a terminal's connection.",
  ["inputs", "fault_sequences", "schedules"], "for every frame and every outcome of the writes (complete, short, failed)",
  "tests use an in-memory connection that never writes short and never fails",
  ["internal/protocol/frame_handler.go"], "send in the frame handler",
  AI + "; call-graph enumeration of writers", "Atomicity of one Write call on a connection is net.Conn's contract (trusted)."),
P("C12", "Silent terminals go offline, then are cleared; live ones are left alone",
  "Each registered terminal is supervised once per keepalive period. While its last communication is less than a keepalive ago, the supervision changes nothing. When the keepalive has passed, a terminal that is not offline becomes offline, and stays registered with its connection and supervision untouched; one that is already offline is removed from the registry by phone and by plate, its position history is dropped, its connection is closed and its supervision ends. Supervision of a terminal that is no longer registered ends without touching anything else. A heartbeat and a successful authentication set the last communication to now, as does a position report with ACC off, which makes the terminal sleeping; a position report with ACC on leaves the record as it is. Authentication makes the terminal online; all other fields stay as they are.",
  ["histories", "inputs"], "for every stored record, every moment the supervision runs at, and every terminal",
  "tests do not wait for keepalives; which of registered, offline and expired leads to which effect is a case analysis over time and history",
  ["internal/protocol/keepalive.go", "internal/protocol/msg_processor.go"], "the job registration hands to the timer; refresh in the message handlers",
  AI + "; linear facts over now, last communication and keepalive", "That the timer library calls the job at the period it is given is trusted."),
P("C28", "Reading, deciding and updating a terminal's record is one step",
  "Every message handler and the supervision job look a terminal up, decide, and store or remove its record, its positions and its supervision as one indivisible step with respect to all others: none works on a record that another one has changed or removed in the meantime. So a heartbeat, authentication or report never brings back a terminal that was logged out or cleared, the supervision never overwrites a refresh with older values or removes a terminal that has just communicated, and cancelling the supervision of a removed terminal never cancels that of its successor.",
  ["schedules"], "for every interleaving of message handlers of all connections and supervision jobs",
  "the windows are a few instructions wide and need two connections and the timer to meet",
  ["internal/protocol/msg_processor.go", "internal/protocol/keepalive.go", "internal/storage/device_cache.go"], "critical sections around lookup and update",
  "critical-section (atomicity) analysis on the path-sensitive abstract interpretation of every handler and the job", "Shared maps are taken to change whenever the lock is not held. Decides the device indexes, the position cache's entries and the timer calls; terminal-side parameter lists (one reader goroutine) are not included."),
P("C13", "The registry's two indexes always agree",
  "After any operation a device is found by phone exactly when it is found by plate, and both lookups give the same record with the values last stored. Storing a device puts it under its own phone and plate and leaves the entries of other keys alone; removing it by either key removes both of its entries and no others, in one critical section; removing an absent one changes nothing; the membership tests agree with the lookups, and a lookup of an absent key yields the not-found error. No message or job stores a record under a key that is not its own or changes the plate of a registered device.",
  ["inputs", "histories"], "for every registry content satisfying the invariant and every operation on it (induction over histories)",
  "tests look up what they just stored; the index that was not looked at, and other devices' entries, are not sampled",
  ["internal/storage/device_cache.go", "internal/protocol/msg_processor.go", "internal/protocol/keepalive.go"], "device cache operations and every caller that stores a record",
  AI + "; inductive invariant over the registry operations", "Records with identical plates are excluded by C09. One operation at a time: C14 and C15 give mutual exclusion."),
P("C14", "Shared state is never accessed without its lock",
  "No two goroutines can access the same shared map, shared record or package variable at the same time when one of them writes it: every such access holds one common lock or is atomic. This covers the device, position, parameter, session and fragment caches, the ring buffers in them, and session serial numbers. A device or parameter record that a lookup hands out is a private copy unless its fields are never written.",
  ["schedules"], "for every interleaving of connections, supervision jobs, the session monitor and HTTP requests",
  "the race detector sees only the interleavings a test runs, and the tests are single-threaded",
  ["internal/storage", "pkg/container/ring_buffer.go", "internal/protocol", "internal/server/tcp_server.go", "internal/api/api.go"], "locksets of all accesses from all entry points",
  "lockset analysis on the path-sensitive abstract interpretation of every entry point", "Locks are identified by the term they are reached by; a lock inside a record guards that record. Positions and parameter values handed out are checked only for writes made by the analysed code. Initialisation under sync.Once is ordered before use."),
P("C15", "No deadlock and no lock left behind",
  "Every lock that is taken is released on every way out of the operation, including panics and errors; no operation takes a lock it already holds or releases one it does not hold; locks are acquired in one global order; and no lock is held while waiting for the network, a timer or a channel.",
  ["schedules", "inputs", "fault_sequences"], "for every path through every operation and every interleaving",
  "a leaked lock shows only after the rare path that leaks it, as a hang of everything else",
  ["internal/storage", "pkg/container/ring_buffer.go", "internal/protocol", "internal/server/tcp_server.go", "internal/api/api.go"], "lock typestate along every path of all entry points",
  "typestate and lock-order analysis on the path-sensitive abstract interpretation of every entry point", "Locks inside third-party libraries are out of scope."),
P("C16", "A failure in one connection never takes the server down",
  "A panic while handling one message is recovered in that connection's goroutine: it closes that connection, and the server and all other connections go on. Every goroutine the server starts recovers panics of its work; the supervision job does not panic; the HTTP router recovers handler panics; and nothing reachable from message handling, supervision or an HTTP request ends the process.",
  ["inputs", "fault_sequences"], "for every message, request and state, including those that make a handler panic",
  "tests do not make handlers panic inside the server's goroutines",
  ["pkg/routines", "internal/server/tcp_server.go", "internal/protocol", "internal/api/api.go"], "unwinding paths and the call graph",
  "unwinding analysis on the abstract interpretation plus call-graph reachability of process-ending calls", "Out-of-memory, stack overflow and runtime-fatal errors (concurrent map access, see C14) are not panics and not covered."),
P("C17", "A connection keeps one session until it ends; only fatal errors end it",
  "An accepted connection gets a session holding it, registered under its id, the remote address, before it is served, and one goroutine. An error in one message (bad checksum, unsupported id, undecodable body and so on) leaves the connection open and reading goes on; the end of the stream, a closed connection, a message of an unregistered terminal, or a panic closes it and removes its session, but never the session of a newer connection from the same address. A failed accept does not stop the server from accepting; a closed listener ends the accept loop. Sending to a session id writes to that session's connection exactly once, and nowhere when there is no such session; the session is removed when its connection turns out closed, and kept otherwise.",
  ["histories", "fault_sequences"], "for every sequence of results of accept and of message handling, up to the modelled length",
  "tests do not run the accept and connection loops against failing networks",
  ["internal/server/tcp_server.go", "internal/storage/session_cache.go"], "accept loop, connection loop, send",
  AI + "; the loops analysed over sequences of abstract results", "Sequences are decided to the length in the evidence; the loops carry no state from one pass to the next beyond what the analysis joins."),
P("C26", "Each pass moves one message through receive, decode, handle, encode, send",
  "One pass over a connection receives a frame from that connection, decodes exactly that frame, handles exactly that packet with the connection's own session and, when handling produced a reply, encodes exactly that reply and sends exactly those bytes; without a reply nothing is encoded or sent. The first stage that fails ends the pass and its error is reported; a pass without failures reports none. All passes of a connection share one reader, so buffered bytes are not lost. A message the platform sends by itself is encoded once, sent once, and its error is reported.",
  ["inputs", "fault_sequences"], "for every combination of stage results",
  "a test passes one good message through; error combinations and cross-wired values are not sampled",
  ["internal/protocol/pipeline.go", "internal/server/tcp_server.go"], "stage order and the values passed between stages",
  AI + " with the stages as uninterpreted functions", "What each stage does is C01 to C11 and C24."),
P("C18", "Serial numbers of platform messages are drawn one by one per session",
  "Each message the platform originates on a session (a command from the HTTP interface, the acknowledgement of a fragment) carries its own serial number, the next of that session's counter modulo 65536. Concurrent senders never get the same number twice in a row of 65536 and none is skipped: drawing is one indivisible step, and nothing else changes the counter.",
  ["schedules", "histories"], "for every interleaving of senders on a session and every counter value including wrap-around",
  "tests draw numbers from one goroutine; lost updates need two senders at once",
  ["internal/protocol/model/session.go", "internal/protocol/msg_processor.go", "internal/api/api.go"], "serial counter of the session",
  AI + "; effect and atomicity analysis of the counter", "Atomic operations are trusted to be atomic. Replies to terminal requests other than fragment acknowledgements take their serial number from the request (C06)."),
P("C19", "The newest position of a terminal is always the last one it reported",
  "After a position report of a registered terminal is accepted, the newest position of that phone is that report, however many reports came before (also when the history has wrapped around); the newest positions of all other phones stay what they were. A phone without reports has no position, which is reported as not found. The underlying ring buffer of any capacity returns the last written element as newest, the one written capacity-1 writes earlier as oldest once it is full, and reads its slots in order.",
  ["histories", "inputs"], "for every number of reports and every terminal",
  "tests write two or three elements; the wrap-around position and the other phones are not sampled",
  ["pkg/container/ring_buffer.go", "internal/storage/geo_cache.go", "internal/protocol/msg_processor.go"], "ring buffer and position cache",
  AI + " over sequences of operations", "Capacities 1 to 5 (thorough: 8) through two rounds and the configured capacity through two rounds are decided write by write with symbolic elements; the buffer's behaviour depends on its position only, which repeats after one round."),
P("C20", "Positions are decoded with the documented bits, units and scales",
  "The position stored for a report carries the reported phone, latitude and longitude in degrees (reported value divided by one million, as a real number), speed in km/h (divided by ten), altitude and direction unchanged, the reported date and time, and each status field from its documented bit (two bits for the load) of the status word. Encoding a status word writes each field to the same bit, so encoding a decoded word restores all documented bits.",
  ["inputs"], "for every report",
  "tests decode a few status words; a swapped or merged bit agrees on most of them",
  ["internal/protocol/model/device.go", "internal/protocol/msg_processor.go"], "position decoding and status word codec",
  AI + " at bit granularity against the documented bit table", "The bit table in checker/rules_geo.go is the oracle. Time zone and an unparsable time are not judged; floating-point division is uninterpreted."),
P("C22", "Fragmented messages are reassembled exactly, in order, per sender",
  "A fragmented message is complete exactly when its parts 1 to N have arrived in order from the same phone with the same message id; it is then handled once, as one message whose body is the parts' bodies in that order, with the matching body length and no longer marked as fragmented. Part 1 starts the message anew; a part that does not continue the sequence, or states a different total, does not become part of it. Parts of other terminals or other message ids in between do not mix in. A completed message leaves nothing behind, and looking up and extending the stored parts is one critical section.",
  ["inputs", "histories", "schedules"], "for every arrival sequence of parts (lost, repeated, reordered, interleaved with other terminals' and other messages' parts) and every body content",
  "tests feed one two-part message; loss, repetition and interleaving need specific sequences",
  ["internal/protocol/packet_codec.go", "internal/storage/segment_cache.go"], "fragment cache in the packet decoder",
  AI + " over sequences of fragments, against a reassembly automaton", "Sequences up to the length in the evidence, with totals up to 3 (thorough: more) and symbolic body bytes. A message with total 0 never completes."),
P("C23", "HTTP requests answer errors once and act only on the addressed device",
  "The HTTP interface lists every registered device exactly once with its stored fields (GET /device), returns the newest position of a device (GET /device/:phone/geo), and on GET or PUT /device/:phone/params sends exactly one 0x8104 or 0x8103 to the connection of that device, addressed with its phone and protocol version, 0x8103 carrying exactly the parameters of the request. When the request cannot be parsed, the device is not registered, it has no connection or there is no position, exactly one error response (status 400 or above) is written and no message is sent.",
  ["inputs", "histories"], "for every request and every state of the registries",
  "there are no tests of the handlers; a missing return after an error shows only for the failing request",
  ["internal/api/api.go", "internal/server/tcp_server.go", "internal/storage"], "route handlers",
  AI + " of every registered route", "gin's context methods are modelled by their contract; JSON rendering is trusted."),
P("C21", "Terminal parameter lists are coded item by item in the documented types",
  "Encoding a parameter list writes the number of items that follow and, for each parameter with a documented id, its id, the length of its value and its value in the type documented for that id, one after the other; parameters with an unknown id and values longer than 255 bytes are left out, of the count too. Numbers that came in as JSON are encoded like native ones. Decoding reads the same layout; an item with an unknown id is skipped by its stated length and the following items are unaffected. Merging an update into a stored list replaces the values of the stored ids it names, keeps all others, and leaves the list ordered by id.",
  ["inputs"], "for every list of parameters, every documented and undocumented id and every value of the documented type",
  "tests round-trip three parameters; a wrong type for one id, or an unknown id in the middle of a list, is not sampled",
  ["internal/protocol/model/device_params.go"], "parameter list codec",
  AI + ", per documented id and once for all remaining ids, over lists up to the bound in the evidence", "The table of documented types in checker/rules_params.go is the oracle; text transcoding (GBK) is uninterpreted. A value whose Go type is not the documented one, and an item whose stated length does not fit its type, are not judged."),
P("C25", "The configuration given is the one the server runs with",
  "Started without an argument, the server takes the embedded default server configuration (the client: the embedded client configuration); with a path it takes that file. A configuration that cannot be read or decoded stops the program. Every key of the shipped configuration files, embedded and on disk, is bound to a setting. The server accepts terminals on the configured TCP port and serves HTTP on the configured HTTP port; when it cannot listen on one of them the program ends with a failure status instead of running without it. The logging settings take effect as configured: each of the levels DEBUG, INFO, WARN, ERROR and FATAL selects that level, and each of the other settings (console, file, JSON, directory, file name, size, backups, age) is passed on as itself.",
  ["inputs", "fault_sequences"], "for every configuration path, every configured value and every failure of reading, decoding or listening",
  "a test loads one file and compares one structure; wrong keys decode silently to zero values, and failure paths of start-up end the process",
  ["main.go", "internal/config/config.go", "internal/config/asset.go", "internal/api/api.go", "internal/server/tcp_server.go", "pkg/logger/logger.go", "configs/default.yaml"], "start-up, configuration loading, flag and port wiring",
  AI + "; key-to-field matching over the type-checked configuration structures", "The behaviour of viper and mapstructure (case-insensitive field names, mapstructure tags, no yaml tags) and of gin's Run is modelled from their documentation; shipped files must stay in the plain-mapping subset of YAML."),
P("C27", "The terminal client follows the platform and keeps its link",
  "A successful dial gives the client a session with the dialled connection, its id the remote address; a failed one is reported and changes nothing. The client then reads messages from that connection, with one reader and its own session, until the stream ends, the connection is closed, or a reply concerns a terminal it does not have; any other error leaves it reading. A message is written once, to the client's own connection; a connection that turns out closed is shut, and no other send error shuts it. A registration reply is answered with an authentication carrying exactly the received code and the terminal's own IMEI and software version. A successful general reply puts a terminal that is still offline online and leaves the status of a running one; a failure reply changes nothing. Parameters the platform sets are stored under the terminal's phone, merged into the stored list, without touching other terminals; a query is answered with the stored list, or with a built-in list that is kept from then on. A stored-media query is answered with the queried channel and time range.",
  ["inputs", "schedules", "histories"], "for every sequence of read and write results and every message of the platform",
  "tests of the client would need a platform; the error classification and the parameter history are only exercised by specific sequences",
  ["internal/client/tcp_client.go", "internal/protocol/msg_processor.go", "internal/storage/param_cache.go"], "terminal client and handlers of platform messages",
  AI + "; modelled result sequences", "The read loop is decided over result sequences longer than every constant it compares with; parameter lists of up to three items stand for all (merging itself: C21)."),
]

NA = []
def N(id, title, statement, over, forall, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, reason=reason))

N("N01", "Silence is noticed in time",
  "A terminal that falls silent is marked offline no later than two keepalive periods after its last message, and cleared no later than one period after that, whatever the load of the server.",
  ["schedules"], "for every load and every clock behaviour",
  "tests run an idle process for a few seconds",
  ["internal/protocol/keepalive.go", "internal/protocol/model/device.go"], "periodic supervision jobs",
  "A bound on wall-clock time: it depends on the scheduler, the gron timer and the clock, none of which the source bounds. What the job does at whatever moment it runs, and that it is scheduled every keepalive period, is decided by C12.")
N("N02", "Authentication codes cannot be guessed",
  "A party that did not receive the registration reply cannot present a valid authentication code except with negligible probability, and two terminals never share a code.",
  ["inputs"], "for every adversary and every pair of terminals",
  "no finite set of attempts shows unguessability",
  ["internal/protocol/msg_processor.go"], "code generation",
  "Quantifies over hash values and adversaries; the code is a 32-bit FNV hash of public fields, so the property is also false by construction (collisions exist). That the code checked is the code issued, and that only the matching code is accepted, is decided by C10.")
N("N03", "Chinese text survives transcoding",
  "Every text that GBK can express is unchanged after being encoded to GBK for the wire and decoded again.",
  ["inputs"], "for every string of GBK-expressible characters",
  "the character tables have about 24000 entries",
  ["internal/codec/gbk/gbk.go"], "conversion by golang.org/x/text",
  "Equality of two table-driven state machines in a dependency: a value-level round trip over data tables, not visible in the shape of this repository's code. That each text field passes through the encoder and decoder exactly once, whole, without shared converter state, is decided by C05.")
N("N04", "Memory stays bounded under any traffic",
  "No terminal or set of terminals can make the server's memory grow without bound: frames, fragment buffers, sessions and registry entries are limited.",
  ["inputs", "histories"], "for every traffic",
  "tests send a few messages",
  ["internal/protocol/frame_handler.go", "internal/storage"], "receive buffer, fragment cache, registries",
  "A bound on a runtime quantity; the code has no limit that a rule could check (an undelimited stream, abandoned fragments and registrations of unauthenticated terminals accumulate until the keepalive job or nothing removes them), so there is no structural condition to claim.")
N("N05", "Registry operations are linearizable to HTTP clients",
  "What an HTTP client observes over several requests is explained by one order of all message and request effects consistent with real time.",
  ["schedules", "histories"], "for every concurrent history",
  "needs histories of overlapping operations",
  ["internal/api/api.go", "internal/storage"], "registries and caches read by HTTP handlers",
  "Linearizability of whole histories across several caches (device, position, session) that are read one after the other without a common lock. The per-operation parts that are visible in the code are decided elsewhere: single-lock access (C14), both indexes in one critical section (C13), read-decide-update as one step (C28).")
N("N06", "A command sent to a terminal is eventually answered or fails",
  "Each parameter query or setting issued over HTTP is followed by the terminal's answer being made available, or by a failure report.",
  ["histories", "fault_sequences"], "for every behaviour of the terminal",
  "needs a terminal that misbehaves",
  ["internal/api/api.go", "internal/protocol/msg_processor.go"], "0x8103/0x8104 and the reply handler of 0x0104",
  "Liveness depending on the terminal and the network; the repository itself leaves the reply unconnected to the request (a documented todo), so no code carries the property. That exactly one command goes to the right connection and errors of sending are reported is decided by C23 and C24.")

NOT_APPLICABLE = NA
