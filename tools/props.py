VG = "abstract interpretation of the SSA form in a gated value-graph domain (value numbering, no path enumeration, no solver)"
RTNOTE = ("Per registered message the abstract wire produced by the encoder is fed to the decoder and every exported field is compared "
  "with the original by value-graph rewriting. Discharged obligations hold for every field value in the stated domain (listed under assumptions in the evidence); "
  "obligations outside what the domain can resolve are re-analysed for list lengths 0-2 and text lengths 0, 2, 5 and otherwise counted as not decided, never as an alarm. "
  "Trusted: the rewrite rules, models of the standard library, GB18030 text coding and gzip as inverse pairs.")
prop("C02", "Terminal-to-platform messages survive encode then decode unchanged",
  "For every registered message type that a terminal sends (message ID below 0x8000), encoding any message whose field values fit the protocol's field widths and decoding the resulting body into a fresh message of the same type succeeds. Every exported field then has the value it had before encoding, and the decoder reports having consumed exactly the encoded body.",
  ["inputs"], "all registered message types below 0x8000, all field values within the wire widths (times in whole seconds, coordinates within the 1e-6 degree grid), all list lengths and text lengths that fit their prefixes",
  "The tests encode and decode one sample per message; empty lists, zero identifiers, boundary values, southern/western coordinates, leading zeros and optional groups in all their combinations are not sampled.",
  ["protocol/"], [("Encode/Decode pair of each terminal message", "protocol/t808_0x0*.go"), ("field primitives", "protocol/bufio.go"), ("value conversions", "protocol/helpers.go")],
  technique=VG, note=RTNOTE)
prop("C03", "Platform-to-terminal messages survive encode then decode unchanged",
  "For every registered message type that the platform sends (message ID 0x8000 and above), encoding any message whose field values fit the protocol's field widths and decoding the resulting body into a fresh message of the same type succeeds. Every exported field then has the value it had before encoding, and the decoder reports having consumed exactly the encoded body.",
  ["inputs"], "all registered message types from 0x8000 up, all field values within the wire widths, all list lengths and text lengths that fit their prefixes",
  "The tests encode and decode one sample per message; empty lists, empty texts, flag-dependent optional groups and hemisphere signs in all their combinations are not sampled.",
  ["protocol/"], [("Encode/Decode pair of each platform message", "protocol/t808_0x8*.go"), ("terminal parameters", "protocol/params.go"), ("field primitives", "protocol/bufio.go")],
  technique=VG, note=RTNOTE)

NPNOTE = ("Abstract interpretation over the SSA form computes, for every operation that can panic, whether the path condition and the value facts exclude the failing case for all inputs. "
  "Undecided operations are re-analysed for data of fixed lengths with loops unrolled; only a failing case with a concrete valuation of the inputs is reported, the rest is counted as not decided. "
  "Trusted: the models of the standard library and of the link library.")
prop("C01", "No received byte stream can panic the receiving side",
  "Whatever bytes arrive on a connection, cut at whatever points, decoding them as frames, headers, message bodies, additional items and parameters ends in a message or an error and never in a panic. The server's per-connection loop likewise handles every decoded message, with or without a body, packet information or a registered type, without panicking itself.",
  ["inputs"], "all byte sequences, all stream fragmentations, all registered message types and unregistered ones, with and without packet and encryption flags",
  "Tests decode a handful of well-formed messages; truncated, over-long, hostile length prefixes and flag combinations are unbounded in number.",
  ["protocol/", "protocol.go", "session_handler.go", "session.go"], [("frame decoder", "protocol/message.go Message.Decode"), ("body decoders", "protocol/t808_0x*.go Decode"), ("additional items", "protocol/extra/"), ("receive loop", "protocol.go ProtocolCodec.Receive"), ("session loop", "session_handler.go HandleSession")],
  technique=VG, note=NPNOTE)
prop("C21", "Encoding a message value never panics",
  "Encoding any message, with whatever field values, absent optional groups, empty lists or a missing body, ends in bytes or an error and never in a panic. The same holds for the header and for sending through the connection codec with or without an encryption key.",
  ["inputs"], "all registered message types, all field values including nil optional groups and empty or over-long lists and texts, lists without nil elements",
  "Tests encode fully populated samples; the combinations of absent groups, empty lists and over-long texts are not sampled.",
  ["protocol/", "protocol.go"], [("body encoders", "protocol/t808_0x*.go Encode"), ("frame encoder", "protocol/message.go Message.Encode"), ("send path", "protocol.go ProtocolCodec.Send")],
  technique=VG, note=NPNOTE)
prop("C04", "Additional items on position reports come back unchanged and in order",
  "Every registered kind of additional item built with its constructor and carried by a position report comes back from decoding that report with the same value, the same raw bytes, its own identifier, and at the same place in the list. Items of kinds nobody registered are skipped by their announced length without disturbing their neighbours or failing the report, and a decoded item gives back exactly the bytes it was decoded from.",
  ["inputs"], "all registered item kinds, all item values, reports carrying none, one, two and three items with unregistered kinds in between, all other report fields",
  "The tests cover a handful of item values; neighbouring items, unknown kinds and boundary values in combination are not sampled.",
  ["protocol/extra/", "protocol/t808_0x0200.go"], [("item kinds", "protocol/extra/0x*.go"), ("item dispatch", "protocol/extra/extra.go Decode"), ("item list", "protocol/t808_0x0200.go")],
  technique=VG, note="Constructor, encoder, registry dispatch and decoder are interpreted abstractly with symbolic item values; lists are analysed for each kind alone, next to each other and with an unregistered kind in between. Item lists longer than three are not analysed. Trusted: rewrite rules and standard-library models.")
prop("C05", "Encoding a message leaves it as it was",
  "Encoding a message changes nothing in it: not its fields, not its lists or their elements, not the additional items it carries, so the same message can be sent to several terminals at once, sent again, or read afterwards. Media data given as a stream is the exception, it is consumed.",
  ["inputs", "histories"], "all messages of every registered kind and all item kinds, any number of encodings of one message, one message broadcast to several sessions whose encoders run concurrently",
  "Tests encode each message once; that a list was reordered or a field overwritten shows only at the second use of the message, for particular values.",
  ["protocol/", "protocol/extra/"], [("message encoders", "protocol/t808_0x*.go Encode"), ("item payloads", "protocol/extra/0x*.go Data"), ("broadcast of one message", "server.go Server.Broadcast")],
  technique="interprocedural effect analysis over SSA: depth-of-foreign-memory dataflow with per-callee summaries, field-sensitive locals", note="Every store, append, copy, map update and in-place sort reachable from an encoder is classified by whether its target is memory of the message. Two known findings (rectangle and polygon area settings set hemisphere bits in the message; an existing test relies on it). Writes done by libraries outside the repository are modelled by a table; streams are exempt.")
prop("C06", "Every message and item kind travels under a number of its own",
  "Each kind of message names itself by one number whatever it holds, what arrives under that number is received as that kind, and the same goes for the additional items of position reports. Every kind the library defines can be received, and every received message or item is an object of its own that is shared with no other.",
  ["inputs", "histories"], "all message and item kinds, all contents of a message, any number of messages received on any number of connections",
  "Tests make one message of each kind directly and rarely through its number; a number that depends on the contents or an object that is handed out twice shows only for other contents or later traffic.",
  ["protocol/register.go", "protocol/", "protocol/extra/"], [("message registry", "protocol/register.go entityMapper, Register"), ("message numbers", "protocol/t808_0x*.go MsgID"), ("item registry and numbers", "protocol/extra/")],
  technique=VG, note="The registries' entries are read from package initialisation; what MsgID and ID return is evaluated over an unknown receiver, constructors are traced to the object they return. A kind is recognised by its methods and the number in its type's name; a kind registered by code the registry reader does not follow counts as not decided.")
prop("C07", "A frame carries any message exactly and a damaged frame is refused",
  "For every header and body that fit the protocol's limits, the encoded frame starts and ends with the delimiter, holds no delimiter byte inside, and decodes to the same header and body, whichever of its bytes equal the delimiter or the escape byte. A body longer than the length field can express is refused instead of being sent with a wrong length. A frame with one byte replaced by another ordinary byte, with a false escape pair, without its delimiters or cut short is refused, and a body whose length is not the one announced is never taken for content.",
  ["inputs"], "all header and body byte values including delimiter and escape bytes at every position and neighbouring pair of positions, body lengths around every boundary of the length field, single-byte damage at every position",
  "Tests encode a handful of messages; which bytes need escaping, and whether the check byte itself does, depends on all the bytes together.",
  ["protocol/message.go", "protocol/property.go"], [("frame encoder", "protocol/message.go Message.Encode, write, computeChecksum"), ("frame decoder", "protocol/message.go Message.Decode"), ("length field", "protocol/property.go SetBodySize, GetBodySize")],
  technique=VG, note="Frame encoder and decoder are composed over messages whose varying bytes are vectors of free bits in a BDD-gated value graph; byte positions not under study hold fixed ordinary values. Every single position and every neighbouring pair (thorough: every pair) is made a delimiter or escape byte while up to three other bytes are free. Damage is decided for all 254 other values of each byte of six frames. Bodies: none, the 5-byte general reply, transparent data of 0-66559 bytes.")
prop("C08", "Header fields, terminal number and packet information come back",
  "Encoding any header and decoding it gives the same message ID, property bits, terminal number, serial number and packet information, with the packet flag set exactly when packet information is present. The header occupies 12 bytes, or 16 with packet information, and a header flagged as a packet without packet information is refused.",
  ["inputs"], "all field values, terminal numbers of 1 to 12 digits, with and without packet information, whatever bytes follow the header",
  "Tests use one eleven-digit terminal number and one property word.",
  ["protocol/header.go", "protocol/property.go", "protocol/helpers.go"], [("header coder", "protocol/header.go"), ("property bits", "protocol/property.go"), ("BCD digits", "protocol/helpers.go stringToBCD, bcdToString")],
  technique=VG, note="All fields symbolic (property and numbers bit-wise, terminal number as symbolic decimal digits); one analysis per digit count.")
prop("C09", "What cannot be read or written is reported, never left out silently",
  "When a part of a message, item, header or frame cannot be read (because the bytes end too early or do not make sense) or cannot be written, the call that decodes, encodes, sends or receives it reports an error instead of returning a message with that part missing or made up. Two cases tell the failure by other means: a frame whose body cannot be read is delivered without a body, and items of unregistered kinds are skipped.",
  ["inputs", "fault_sequences"], "all message and item kinds, truncation at any byte, undecodable digits, texts and compressed data, writers and readers that fail at any call",
  "Tests decode complete, well-formed bodies and write to memory; each field can be the one that is cut off or damaged, in every kind.",
  ["protocol/", "protocol/extra/", "protocol.go", "session.go", "server.go"], [("field readers", "protocol/bufio.go"), ("decoders and encoders", "protocol/t808_0x*.go"), ("frame coder", "protocol/message.go"), ("send and receive", "protocol.go ProtocolCodec.Send, Receive")],
  technique="path-sensitive error-propagation (typestate) analysis over SSA; reported paths confirmed by abstract interpretation of the decoder or encoder", note="Every call that may fail is one obligation. Branches on other results of the failed call end a path undecided; a path that swallows the failure is reported only if the interpreter finds the call failing for some data (library calls that fail on content are taken to). Failures signalled by anything but an error value are outside.")
prop("C10", "A received message keeps its contents while the connection goes on",
  "Nothing in a received message refers to the connection's receive buffer or to other storage that is used again: not its texts, lists, raw fields, items or media stream. What a handler was given stays as it was however much is received afterwards, and decoding a message from a caller's bytes keeps no reference to them.",
  ["histories", "schedules", "inputs"], "all message kinds, all further traffic on the same and on other connections, handlers that keep a message or use it from another goroutine",
  "Tests decode one message and look at it at once; memory that is overwritten later shows only when more traffic arrives while the message is still in use.",
  ["protocol.go", "protocol/message.go", "protocol/bufio.go"], [("receive buffer", "protocol.go ProtocolCodec.Receive, readFromBuffer"), ("frame decoder", "protocol/message.go Message.Decode"), ("raw reads", "protocol/bufio.go Reader.Read")],
  technique="interprocedural reference-retention (alias) analysis over SSA with per-callee summaries of results and parameters", note="Alias flow is followed from the codec and the frame bytes through every decoder into the message, per message kind; pooled objects and package-level scratch count as storage used again. Library results alias their arguments according to a table; single-message decoders called directly by a user may keep parts of the body they are given (only frames are covered).")
prop("C11", "Frames are reassembled whatever the stream's fragmentation",
  "However the byte stream is cut into reads, the receiver returns every well-formed frame exactly once and in order. Every call gives a message or an error; garbage between frames and frames the decoder refuses produce errors but neither swallow nor duplicate nor corrupt the frames after them, an unfinished frame is kept until the rest arrives, and the end of the stream is reported.",
  ["inputs", "histories"], "all frame contents, streams of up to four frames, bad frames and garbage runs of up to 300 bytes, and the listed read sizes including one byte at a time and reads around the internal buffer size",
  "The tests feed no stream at all; fragmentation patterns and their combination with garbage and bad frames are unbounded.",
  ["protocol.go"], [("receive loop", "protocol.go ProtocolCodec.Receive"), ("frame scanner", "protocol.go readFromBuffer")],
  technique=VG, note="Repeated calls of the receive function are interpreted abstractly on symbolic bytes with the frame decoder uninterpreted; the set of stream layouts and read-size patterns is finite and listed in the evidence, the byte values are not enumerated.")
prop("C20", "A body is enciphered exactly when asked for, flagged so, and comes back",
  "A message encoded with a key carries the encryption flag and none of its body in the clear, decodes to the same body with the matching private key, and is refused without one; a message encoded without a key is not flagged. When sending, a body is enciphered exactly when the connection has a key and the message asks for encryption; exactly one whole frame is written, and a failure to encode or to write is reported to the caller.",
  ["inputs", "fault_sequences"], "all body contents, body lengths around every multiple of the cipher block, 512, 1024 and 2048 bit keys, all property words, encode and write failures",
  "Tests encrypt one short string; chunk boundaries, flag combinations and failing writes are not sampled.",
  ["protocol/message.go", "protocol/helpers.go", "protocol/property.go", "protocol.go"], [("enciphering", "protocol/message.go Message.Encode"), ("deciphering", "protocol/message.go Message.Decode"), ("chunking", "protocol/helpers.go EncryptOAEP, DecryptOAEP, bytesSplit"), ("send path", "protocol.go ProtocolCodec.Send")],
  technique=VG, note="RSA-OAEP itself is modelled as an injective block map (its strength is not decided). Body contents are symbolic; body lengths and key sizes are the listed ones.")

SWNOTE = ("The real source (server, session loop, session, timer, and the standard heap) is interpreted abstractly as one program inside an environment model of the link library, clock, locks and user functions; "
  "all data, clock readings, options and failures are symbolic and every decision keeps both branches as a gated value. Histories are bounded as stated in the quantifier; calls of the environment come at the points the scenario lists, not at every instruction (interleavings are the lock property's subject). "
  "Trusted: models of link.Session, sync, atomic, time and the map/heap semantics.")
prop("C19", "Every received message gets its due answer and reaches its handlers unchanged",
  "A message of an unknown kind is answered as unsupported and reaches no handler; a message part to be reassembled is answered success once stored and failure when it cannot be read or stored, exactly once, with the received serial number and message ID and to the terminal that sent it. Every other message is handed exactly once to the handler registered for its kind, together with the session it arrived on and with header and body as received, and a completed set of parts is handed over once with the merged content.",
  ["inputs", "fault_sequences"], "every registered message kind and an unregistered one, all header and body values, packet flag and merge option on and off, handlers installed or not, failures of reading, storing and merging",
  "The repository has no test of the session loop.",
  ["session_handler.go", "session.go", "server.go"], [("session loop", "session_handler.go HandleSession"), ("answers", "session.go Reply"), ("dispatch", "server.go dispatchMessage")],
  technique=VG, note=SWNOTE)
prop("C13", "A session is findable exactly while its connection is open, its end told once",
  "From the first message until its end, every open connection has exactly one session, found under its number and under no other, and not affected by other connections coming and going. When the connection fails or is closed, it is closed and read no further, its session can no longer be found, and the close handler is told exactly once, of that very session, even if the connection was closed while being set up.",
  ["histories", "fault_sequences"], "one and two connections, closed before or after set-up, with and without a close handler, close notification arriving once or twice",
  "The repository has no test that opens a connection.",
  ["server.go", "session_handler.go", "session.go"], [("registration", "session_handler.go HandleSession"), ("removal", "server.go handleClose"), ("lookup", "server.go GetSession")],
  technique=VG, note=SWNOTE)
prop("C24", "A broadcast reaches each open session once and counts the successes",
  "Broadcasting sends the message exactly once to every session that is open and to no closed one, with the message's own identifier. A failing send to one session does not keep the others from being tried, and the number returned is the number of sends that succeeded.",
  ["histories", "fault_sequences"], "no, one and two open sessions, one closed before, every send free to fail",
  "No test broadcasts.",
  ["server.go"], [("broadcast", "server.go Broadcast"), ("send", "session.go Send")],
  technique=VG, note=SWNOTE)
prop("C18", "Connections silent for the keepalive time are closed, active ones are not",
  "At each check, exactly the connections from which nothing was received for at least the keepalive time are closed; receiving any message, of whatever kind, puts a connection's deadline off, one connection's activity never affects another's, and a connection that ends by itself just then does no harm. In the timer underneath, each key expires once per start, not before its time-out has passed since its last start, and never after being removed or once restarted, whatever the order of starts, removals and expiries of other keys.",
  ["histories", "schedules"], "all clock readings and time-outs, sequences of up to four operations and two ticks on up to three keys, silent and speaking connections, one beside another",
  "The timer has no tests; expiry depends on orderings of deadlines in a heap.",
  ["timer.go", "server.go", "session_handler.go"], [("timer", "timer.go Update, Remove, checkExpirationQueue"), ("deadline", "session_handler.go HandleSession"), ("closing", "server.go handleReadTimeout")],
  technique=VG, note=SWNOTE)
prop("C12", "Shared state is free of data races, locks are released and never deadlock",
  "Server, sessions, timer and codec may be used from any number of goroutines at once, next to the loops serving each connection: any two accesses of which one writes, by goroutines that may run together, exclude one another through a lock held by both or are both atomic (64-bit ones aligned on 32-bit machines as well). Every lock is released on every way out, is never acquired twice by one goroutine, locks are acquired in one order, and none is held while a user's function runs or the server waits for its connections to end. Encoders and decoders share no state that changes.",
  ["schedules", "programs"], "every access to a field of a type reachable from server, session or codec, to what such a field refers to and to package variables, on every path from every entry point: exported functions, transport callbacks, goroutines, kept callbacks",
  "A race or a leaked lock needs the one schedule or error path that shows it; the existing tests run everything on one goroutine.",
  ["server.go", "session.go", "session_handler.go", "timer.go", "protocol.go"], [("sessions", "server.go Server.sessions"), ("requests", "session.go Session.requests"), ("deadlines", "timer.go CountdownTimer"), ("keys", "protocol.go ProtocolCodec.publicKey"), ("counter and number", "session.go nextID, updateIccID")],
  technique="path-sensitive interprocedural lock-set analysis, atomicity consistency and lock-order graph over go/ssa",
  note="Locks are told apart by the field they are in, not by object. Registration of messages happens before serving. One goroutine receives and one sends per connection, as the transport library does. Data inside messages belongs to the user.")
prop("C14", "A failing user function takes down neither session nor server",
  "When a message handler, the callback of a request or the close handler fails by panicking, the failure stops at that call: the session goes on to receive and serve the messages that follow, other sessions and the server are untouched. None of these functions runs while a lock of the library is held, so they may call back into session and server.",
  ["programs", "histories"], "every call of a user's function reachable from the session loop and from the end of a connection, for all messages and options, whatever the function does",
  "A test can only register handlers that behave; the sessions run on goroutines with no recovery of their own, so one missed call ends the process.",
  ["server.go", "session.go", "session_handler.go"], [("message handlers", "server.go dispatchMessage"), ("callbacks", "session.go message"), ("close handler", "server.go handleClose")],
  technique="typestate of deferred recovery and lock set at every user call, over abstract interpretation of the session loop",
  note=SWNOTE)
prop("C15", "The answer to a request reaches its callback, once, and no other",
  "When a terminal's answer names the number of an outstanding request on its session, the callback of that request, the latest under that number or kind, is called exactly once with the message as received, no matter how early the answer arrives or what other requests are outstanding. No other message calls a callback, a request that could not be sent reports the failure and is forgotten, and the number a successful request returns is the number it was sent with.",
  ["inputs", "histories", "schedules"], "all eight answering kinds and others, all numbers, one or two requests of the same or different kinds, failures of sending, answers overtaking the request, numbers reused after wrapping, a further request coming in between two critical sections while an answer is handled",
  "The pairing depends on the order of sending and receiving and on which requests are outstanding; the repository has no test of it.",
  ["session.go", "session_handler.go"], [("registration", "session.go Request, addRequestContext"), ("pairing", "session.go message, takeRequestContext")],
  technique=VG, note=SWNOTE)
prop("C16", "Messages carry consecutive non-zero numbers and the terminal's number",
  "The messages sent on one session are numbered consecutively, never zero, starting over at one only past the top of the range, and no two sent at the same time get the same number; the number a send returns is the number sent and an error is returned exactly if sending failed. Each message carries the identifier of its content and the terminal number last heard from that terminal, replies included.",
  ["schedules", "histories", "inputs"], "every state of the counter, two senders interleaved at any access to the counter, all terminal numbers received in up to two messages of every kind",
  "Duplicate numbers need a second sender between two memory accesses; wrapping needs hundreds of messages.",
  ["session.go", "session_handler.go"], [("numbering", "session.go nextID"), ("sending", "session.go send"), ("terminal number", "session.go updateIccID")],
  technique=VG, note=SWNOTE)
prop("C17", "A message sent in parts comes out whole, once, in order, despite faults",
  "The parts of a message are kept under terminal, message kind and tag and by part number; the message counts as complete exactly when every part from one to the announced count has been stored, in whatever order, however often, and whatever other uploads are going on. Merging gives the concatenation of the latest content of each part in order of part number, leaves nothing behind that could complete or mix into the next upload under the same tag, and the handler gets it once, readable, closed afterwards. A failed or interrupted write never counts as a stored part, and a merge in which an operation fails either still gives the right content or reports an error and can be tried again.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "uploads of 1, 2, 3 and 12 parts in three orders with retransmissions, all part contents, pairs of uploads differing in one key, numbers outside the range, each single file operation failing or being the last before the process ends",
  "The test merges a few parts written in order by one process on a healthy disk.",
  ["multipart.go", "session_handler.go"], [("storing", "multipart.go Write"), ("completeness", "multipart.go IsFull, walkParts"), ("merging", "multipart.go Merge"), ("parts in the session loop", "session_handler.go HandleSession")],
  technique=VG, note=SWNOTE + " File names are constants chosen to collide under truncation, prefix and sign errors; contents stay symbolic.")
prop("C22", "Headers, frames and message bodies have the layout the standard prescribes",
  "A terminal that follows JT/T 808-2013 finds every field of every message this library sends where the standard puts it: at its offset, in its width and byte order, BCD and text fields in their coding, lists behind their counts, and optional parts present exactly when the flag that announces them is set. The same holds of the message header with its property word, with and without the part numbers, and of the whole frame with escapes, checksum and delimiters. What the library receives is read by the same layout.",
  ["inputs"], "all field values of every message kind, combinations of flags, lists of none to several elements, headers of all terminal numbers, frames with every placing of bytes that need escaping in the modelled positions",
  "Encoding and decoding that share a mistake agree with each other, so a round trip never shows it; the tests have a few frames of a few kinds.",
  ["protocol"], [("kinds", "protocol/t808_0x*.go Encode, Decode"), ("header", "protocol/header.go, property.go"), ("frame", "protocol/message.go")],
  technique="value-graph equality: abstract interpretation of the encoder and of a reference encoder of the standard's layout, terms compared after normalisation; the decoder follows by round trip",
  note="The reference encoders are this project's own reading of the standard. Lists and texts have representative lengths, their contents are symbolic; three deviations existing tests insist on are listed as known findings.")
prop("C23", "Flag words, codes, parameters and extra items have the standard's meaning",
  "What a user asks for by name has on the wire the meaning JT/T 808-2013 gives it: every flag a caller sets or reads is the bit the standard assigns to it and leaves the other bits alone, every named code has its value. A terminal parameter set or read by its name is the one with the standard's number and type, and every additional item of a position report carries the standard's number, length and unit.",
  ["inputs"], "every named flag, code, parameter and additional item, all values of the other bits and of the contents",
  "A flag set and read by the same wrong bit passes its test; only the standard tells which bit it is.",
  ["protocol"], [("flag words", "protocol/bit.go, t808_0x0200.go, property.go"), ("codes", "protocol/const.go"), ("parameters", "protocol/params.go"), ("additional items", "protocol/extra")],
  technique="value-graph equality: abstract interpretation of each accessor or code against the meaning the standard gives it",
  note="The table of meanings is this project's own reading of the standard.")
prop("C25", "A server runs at most once at a time, stops when told, and can run again",
  "A start listens on the given network and port and serves until stopped; while it does, a further start is refused with an error and without listening, and a stop ends exactly the running service, once, without holding anything its sessions need to close. A failed start reports the error, a stop without a running service does nothing, and in either case, as after a stop, the server can be started again. Each connection is served with the server's private key, its own buffer and its own public key.",
  ["histories", "fault_sequences"], "all orders of a stop, a start that may fail to listen, a second start and two stops while serving, and a further start; two connections with keys set, replaced and taken back; two starts at once, interleaved between critical sections",
  "The tests never start the server; the failure of listening and a stop while serving need an environment.",
  ["server.go", "protocol.go", "session.go"], [("start and stop", "server.go Run, Stop"), ("codecs", "protocol.go NewCodec"), ("keys", "session.go GetPublicKey, SetPublicKey")],
  technique=VG, note=SWNOTE)
prop("C30", "What one connection can make the server hold is bounded",
  "Of a frame that does not end, at most 65535 bytes are kept: with more, receiving fails, which ends the session, however the bytes are split over reads. A length or count carried in a message never makes its decoder set aside more than 65536 elements, or more than about twice the message's own size, before the data it announces has arrived.",
  ["inputs", "histories"], "every message and item decoder over data of any content and length; the receiver with 65535 bytes of an unfinished frame pending and one more byte arriving",
  "The tests decode well-formed messages and never keep a frame open; an exhausted server needs an adversary's input.",
  ["protocol.go", "protocol", "protocol/extra"], [("receive limit", "protocol.go ProtocolCodec.Receive"), ("decoders", "protocol/t808_*.go Decode"), ("unescaping", "protocol/message.go Decode")],
  technique=VG, note="What decompressing a 0901 message yields is bounded only by the format's expansion factor and is not part of the claim.")
prop("C26", "Texts keep every character on the way to and from a terminal",
  "Every text a message carries, once sent and received, has the same characters, for every character the terminals' character set can express. Characters it cannot express are reported instead of being replaced.",
  ["inputs"], "all characters and character sequences",
  "Tests use a few Chinese words; the character set has tens of thousands of code points.",
  ["protocol/bufio.go"], [("text coder", "protocol/bufio.go WritString, ReadString")],
  na="The property is a fact about the tables of the text library outside the repository (GB18030 encoder and decoder being inverse); no static argument in reach establishes it from the repository's source. That both sides use the same coder and pass texts through unchanged is part of C02 and C03, that its errors are reported part of C09.")
prop("C27", "Coordinates are rounded to the nearest representable value",
  "A coordinate with more digits than the wire carries is sent as the representable value nearest to it, for both hemispheres. The error after any number of round trips is at most half the wire's resolution.",
  ["inputs"], "all coordinates of any precision",
  "Tests use coordinates that are representable.",
  ["protocol/helpers.go"], [("coordinate conversion", "protocol/helpers.go getGeoPoint, mul")],
  na="Numerical error of arbitrary-precision decimal arithmetic in a library outside the repository; the value graph has no theory of rounding. Exactness on the representable grid is decided as part of C02 and C03.")
prop("C28", "A silent connection is closed promptly",
  "A connection that falls silent is closed within a fixed real time after the keepalive time has run out, however many connections there are and however busy the server is.",
  ["schedules"], "all numbers of connections, all loads",
  "A test cannot bound the delay for all loads.",
  ["timer.go"], [("expiration checker", "timer.go")],
  na="Quantifies over real time and scheduling delays, which no static argument bounds. Which connections are closed at a tick of the checker, whenever it comes, is decided in C18.")
prop("C29", "A slow terminal never holds up the others",
  "Sending to a terminal that does not read, or a handler that takes long, never delays messages to or from other terminals for ever. A connection whose outgoing queue is full ends instead of blocking its senders.",
  ["schedules", "histories"], "all numbers of connections, all speeds of terminals and handlers",
  "A liveness property over unbounded schedules.",
  ["server.go", "session.go"], [("send path", "session.go Session.Send")],
  na="Liveness under fair scheduling of goroutines and of queues inside the transport library; lock-holding across calls that wait is excluded by C12, progress itself is not a property of the source's structure that this family can decide.")
