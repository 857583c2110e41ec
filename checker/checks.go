package main

import (
	"fmt"
	"strconv"
	"strings"
)

var checks = []checkSpec{
	{
		id: "C01", rules: []string{"no-panic", "decoded-shape"},
		jobs: npJobs, refine: npRefine, min: 500,
		rule:   "Every operation that can panic (index, slice bound, nil dereference, nil call, type assertion, division, make size) reachable from the decoders, the frame decoder, the codec's receive loop and the session loop is an obligation; it is discharged when the abstract state at the operation implies it cannot fail, for all input bytes; it is a violation when a valuation of the inputs makes it fail.",
		assume: []string{"RSA keys have at least 512 bits", "constructors of user-registered messages return non-nil values", "external readers honour the io.Reader contract"},
	},
	{
		id: "C21", rules: []string{"no-panic"},
		jobs: encJobs, refine: npRefine, min: 200,
		rule:   "Every operation that can panic reachable from the encoders, the frame encoder and the codec's send path is an obligation; it is discharged when the abstract state at the operation implies it cannot fail for any field values.",
		assume: []string{"RSA keys have at least 512 bits", "lists of pointers or interfaces hold no nil element", "the codec was built on a non-nil connection"},
	},
	{
		id: "C04", rules: []string{"decodes", "round-trip", "consumed", "keeps-bytes", "items", "identifier"},
		jobs: xtJobs, min: 60,
		rule:   "Each registered kind of additional item is encoded by its constructor and decoded again as gated value graphs; the value, the kept bytes, the identifier and the consumed count must be the same terms. Position reports carrying one item, two items, and an item of an unregistered kind between two others are encoded and decoded as a whole with the registry resolved; the list must come back in order.",
		assume: []string{"the optional part of an item is given exactly when its kind is not zero"},
	},
	{
		id: "C07", rules: []string{"frame", "delimited", "refuses"},
		jobs: frJobs, min: 200,
		rule: "The frame encoder and the frame decoder are composed abstractly for messages whose bytes are given by their bits: every byte in turn, and every neighbouring pair, is a delimiter or escape byte while others are free; the decoder's header and body terms must equal the encoder's, no delimiter may appear inside the frame, over-long bodies must be refused, and a valid frame with one byte replaced by any other ordinary byte, or cut short, must be refused.",
	},
	{
		id: "C08", rules: []string{"header"},
		jobs: hdJobs, min: 24,
		rule:   "The header encoder and decoder are composed abstractly over a symbolic header for terminal numbers of 1 to 12 digits with and without packet information; every field term must come back, the header must have its fixed size, and a packet flag without packet information must be refused.",
		assume: []string{"terminal numbers have at most 12 decimal digits"},
	},
	{
		id: "C11", rules: []string{"stream"},
		jobs: rxJobs, min: 100,
		rule:   "The codec's receive function is interpreted abstractly, call after call, on a stream of frames, bad frames and garbage whose bytes are symbolic (constrained only not to be the delimiter) and which the connection delivers in reads of the given sizes; the frame decoder is an uninterpreted function of the bytes handed to it. The messages returned must be exactly the good frames, in order, once each, and the end of the stream must be reported.",
		assume: []string{"frame contents beyond the delimiter structure do not matter to reassembly"},
	},
	{
		id: "C20", rules: []string{"encrypted", "send"},
		jobs: enJobs, min: 30,
		rule:   "Frame encoder, chunked RSA-OAEP helpers and frame decoder are composed abstractly with OAEP modelled as an injective map from texts of at most one block to blocks; the enciphered frame must be flagged, must not contain the text terms, must decode to the same body terms with the key and be refused without. The codec's send function is interpreted with the frame encoder uninterpreted: one write of exactly the encoder's result, enciphered exactly when a key is set and the message asks for it, failures reported.",
		assume: []string{"RSA-OAEP is injective and only whole blocks decrypt", "keys of 512, 1024 and 2048 bits"},
	},
	{
		id: "C19", rules: []string{"reply", "dispatch", "packet"},
		jobs: replyJobs, min: 60,
		rule:   "The session loop is interpreted abstractly, from connection to end of connection, in an environment that delivers one symbolic message of each registered kind and of an unregistered kind, with every combination of packet flag, merge option, installed handlers and failures of reading, storing and merging a part. Under each path condition the answers sent and the handlers called are compared with what the protocol demands of that condition.",
		assume: []string{"link.Session delivers received messages in order and sends what it is given"},
	},
	{
		id: "C17", rules: []string{"parts", "packet"},
		jobs: func(P *Program, tier string) []unitJob { return append(replyJobs(P, tier), partJobs(P, tier)...) }, min: 40,
		rule:   "Storing, completeness and merging of parts are interpreted abstractly over a model of files and directories with constant names and symbolic contents: uploads of 1 to 12 parts in several orders with retransmissions and a following upload under the same tag, uploads that differ in one of terminal, message and tag, numbers outside the upload, a failure of each single operation, and a process end before or in the middle of each operation. Completeness, merged content, errors and open files are compared with what was stored. In the session loop, with these operations uninterpreted, identity, number and content handed to them are compared with the received message for all messages.",
		assume: []string{"names are tried for constant terminal numbers, messages, tags and numbers only", "a rename is atomic"},
	},
	{
		id: "C25", rules: []string{"run"},
		jobs: func(P *Program, tier string) []unitJob {
			return []unitJob{{args: []string{"rn", "run"}}, {args: []string{"rn", "keys"}}, {args: []string{"rn", "raced@1"}}, {args: []string{"rn", "raced@2"}}, {args: []string{"rn", "raced@3"}}}
		}, min: 5,
		rule: "Start and stop are interpreted abstractly with listening free to fail: a stop before any start, a start, a second start and two stops while the first serves, and a further start. What is listened on, served, stopped and returned under each path condition is compared with whether the server runs. The keys given to server and sessions are followed to the codec of each connection.",
	},
	{
		id: "C05", rules: []string{"unchanged"},
		jobs: func(P *Program, tier string) []unitJob { return []unitJob{{args: []string{"ef"}}} }, min: 20,
		rule:   "For every registered message and extra item, the functions its encoding calls are analysed interprocedurally for their effects: each value carries the number of loads that separate it from the message's memory (local variables field by field, callees by one summary per assignment of depths), and a store, copy, append, map update, deletion, in-place sort or fill through a value that refers to the message's own memory is reported with the field it writes.",
		assume: []string{"functions outside the repository write only what they are documented to write", "streams of media data are consumed by encoding"},
	},
	{
		id: "C10", rules: []string{"separate"},
		jobs: func(P *Program, tier string) []unitJob { return []unitJob{{args: []string{"rb"}}} }, min: 20,
		rule:   "For every registered message kind, receiving (from the codec down to the kind's decoder, interface calls resolved to that kind) and decoding are analysed interprocedurally for retained references: each value carries the number of loads that separate it from the memory that existed before the call (codec and its buffers, the bytes given to the decoder, pooled objects), stores into fields, elements, parameters and receivers are followed, libraries by a table of which results alias their arguments. The message handed over must not reach that memory.",
		assume: []string{"library functions not in the table return memory of their own"},
	},
	{
		id: "C06", rules: []string{"kinds"},
		jobs: func(P *Program, tier string) []unitJob { return []unitJob{{args: []string{"rg"}}} }, min: 20,
		rule: "Every entry of the message and item registries is read from package initialisation; the number a message of the entry's type names itself by is evaluated over a message with unknown contents and compared with the entry's number and with the number in the type's name, the constructor's returns are traced to the object they refer to (made by the call, or a package or captured variable), and every type that is a message or item by its methods and name must be registered.",
	},
	{
		id: "C09", rules: []string{"failures"},
		jobs: func(P *Program, tier string) []unitJob { return []unitJob{{args: []string{"fl"}}} }, refine: failRefine, min: 60,
		rule:   "For every call that may fail, in every function reachable from the encoders, decoders and the codec, each path of the control-flow graph on which it has failed is walked with the nil-ness of error values: it must end in a failure of the caller, a test against a particular error, or a hand-over of the error. A path on which the failure goes unreported is a violation when the abstract interpreter confirms, from a decoder on arbitrary bytes or an encoder on an arbitrary message, that the call can fail there.",
		assume: []string{"writes to memory buffers do not fail", "closing a reader loses nothing", "a message delivered without a body tells that its body could not be read"},
	},
	{
		id: "C12", rules: []string{"locks"},
		jobs: func(P *Program, tier string) []unitJob { return []unitJob{{args: []string{"lk"}}} }, min: 10,
		rule:   "Every function that can be entered from outside (exported functions and methods, the functions the transport library calls, started goroutines, kept callbacks, all encoders and decoders) is walked path by path, callees and passed functions included, with the set of locks held. For each shared memory location (field of a type reachable from server, session or codec, what such a field refers to, package variable) that is written once shared, any two accesses by goroutines that can run together must hold a common lock (exclusively for the writer) or both be atomic. Locks must be acquired in one order, never twice, be released on every path to a return, and not be held over a call of a user's function or a call that waits for other goroutines; fields of 64-bit atomic operations must be aligned on 32-bit machines.",
		assume: []string{"objects of one type are protected by locks of one owner (locks are told apart by the field they are in)", "messages and extras are registered before serving", "one goroutine receives and one sends per connection"},
	},
	{
		id: "C15", rules: []string{"answer"},
		jobs: reqJobs, min: 50,
		rule:   "Requests made through the public interface while the session loop waits, and the loop itself receiving answers of all eight answering kinds (and messages of other kinds) with symbolic serial numbers and outcomes of sending, are interpreted abstractly: one request, two requests of different or of the same kind, a request whose answer overtakes it (the receiver continues from the state at the moment of sending), a request without callback, a request whose number has come round again. Which callbacks run at each received message is compared with which requests are outstanding.",
		assume: []string{"a newer request of the same kind supersedes an older one"},
	},
	{
		id: "C16", rules: []string{"serial"},
		jobs: serialJobs, min: 20,
		rule: "Sending is interpreted abstractly from an arbitrary counter value (the counter is the one memory cell two sends change; the interval it stays in is found by trying bounds and checking that they are inductive): the number is not zero, counts up, goes back to one only from 255 or more, and is the one returned. A send is interrupted by a whole other send at each access to the counter made without a lock; the numbers must differ. Terminal numbers are followed through received messages of every kind.",
	},
	{
		id: "C14", rules: []string{"isolated"},
		jobs: func(P *Program, tier string) []unitJob {
			out := lifeJobs("one", "closed")(P, tier)
			for _, k := range []string{"0001", "0200", "0801"} {
				out = append(out, unitJob{args: []string{"ss", k}})
				out = append(out, unitJob{args: []string{"rq", "one", k}})
			}
			return out
		}, min: 5,
		rule: "At every call of a user's function (message handler, request callback, close handler) reached while the session loop and the close notification are interpreted abstractly, the calling frames must hold a deferred function that recovers on all its paths, installed on every path to the call and below the session loop, and no lock of the library may be held.",
	},
	{
		id: "C13", rules: []string{"life"},
		jobs: lifeJobs("one", "closed", "two", "timeout", "raced@1", "raced@2", "raced@3"), min: 6,
		rule:   "Server start, session loop, close callback and session lookup are interpreted abstractly over the life of one and two connections, including a connection closed before its callback is installed, one closed by the keepalive checker, and a callback that runs twice; lookups and close notifications under each path condition are compared with the set of open connections.",
		assume: []string{"link.Session runs close callbacks at most once, after installation, unless the scenario says otherwise"},
	},
	{
		id: "C24", rules: []string{"broadcast"},
		jobs: lifeJobs("cast"), min: 1,
		rule: "Broadcast is interpreted abstractly with no, one and two registered sessions and after one has closed, every send free to fail; the sends made and the count returned are compared with the registered sessions and the outcomes of the sends.",
	},
	{
		id: "C18", rules: []string{"timer", "keepalive"},
		jobs: func(P *Program, tier string) []unitJob {
			return append(tmJobs(P, tier), lifeJobs("silent", "active", "other", "gone@0", "gone@1", "gone@2")(P, tier)...)
		}, min: 25,
		rule:   "The countdown timer (heap included) is interpreted abstractly over sequences of starts, restarts, removals, changed time-outs and checker ticks for up to three keys with symbolic clock readings and a symbolic time-out; what expires at each tick under each path condition must be exactly the keys whose last start lies at least the time-out back. The server's checker is interpreted over connections that stay silent, speak, or speak beside a silent one; those closed must be exactly those silent for the keepalive time.",
		assume: []string{"the clock does not run backwards", "the ticker ticks"},
	},
	{
		id: "C30", rules: []string{"bounded"},
		jobs: boundJobs, min: 20,
		rule:   "Every decoder is interpreted abstractly over data of any content and length; for each place where it sets memory aside, the number of elements under the path condition must be at most 65536 or at most about twice the length of the data. The receiver is interpreted with 65535 bytes of an unfinished frame pending and one more byte arriving: it must fail instead of reading on.",
		assume: []string{"compressed data expands by at most the format's factor"},
	},
	{
		id: "C22", rules: []string{"layout", "decodes", "round-trip", "consumed", "header", "frame"},
		jobs:   layoutJobs,
		refine: rtRefine, min: 40,
		rule:   "The layout the standard prescribes for each kind is written down as a reference encoder that is type-checked with the messages' package (only in the analysis) and interpreted abstractly over the same symbolic value as the kind's own encoder; the two byte sequences must normalise to the same term. The kind's decoder, fed with the term its encoder writes, must give every field back, so it reads by the same layout; likewise headers and frames. A mismatch is reported only when no term depends on an unmodelled operation and a valuation of the fields shows different bytes.",
		assume: []string{"texts are representable in GB18030", "lists and texts fit their length prefix", "the reference encoders state the standard's layouts"},
	},
	{
		id: "C23", rules: []string{"meaning", "decodes", "round-trip", "keeps-bytes", "identifier"},
		jobs: func(P *Program, tier string) []unitJob {
			js := []unitJob{{args: []string{"me"}}}
			for _, j := range xtJobs(P, "quick") {
				if j.args[0] == "xt" {
					js = append(js, j)
				}
			}
			return js
		}, min: 20,
		rule:   "Each accessor of a flag word, each way to set and read a terminal parameter, the content and identifier of each kind of additional item and each group of named codes is interpreted abstractly beside a reference function that states what the standard prescribes, over symbolic arguments; results must be the same terms, bit for bit. Each kind of item is decoded from what its constructor writes and must give its value back. A mismatch is reported only with values that exhibit it.",
		assume: []string{"texts are representable in GB18030", "the reference functions state the standard's meanings"},
	},
	{
		id: "C02", rules: []string{"encodes", "decodes", "round-trip", "consumed"},
		jobs:   func(P *Program, tier string) []unitJob { return rtJobs(P, func(k int64) bool { return k < 0x8000 }) },
		refine: rtRefine, min: 40,
		rule:   "The encoder and the decoder of each registered message are interpreted over a symbolic value (fields, texts and lists of any length); the term the decoder assigns to each field, fed with the term the encoder writes, must normalise to the original field term, Encode and Decode must accept the value, and the reported count must be the written length. A mismatch is reported only when no term depends on an unmodelled operation and a valuation of the fields shows different values.",
		assume: []string{"texts are representable in GB18030", "times are whole seconds of the years 2000-2099 in the protocol's zone", "lists and texts fit their length prefix", "coordinates within 1e-6 resolution"},
	},
	{
		id: "C03", rules: []string{"encodes", "decodes", "round-trip", "consumed"},
		jobs:   func(P *Program, tier string) []unitJob { return rtJobs(P, func(k int64) bool { return k >= 0x8000 }) },
		refine: rtRefine, min: 40,
		rule:   "The encoder and the decoder of each registered message are interpreted over a symbolic value (fields, texts and lists of any length); the term the decoder assigns to each field, fed with the term the encoder writes, must normalise to the original field term, Encode and Decode must accept the value, and the reported count must be the written length. A mismatch is reported only when no term depends on an unmodelled operation and a valuation of the fields shows different values.",
		assume: []string{"texts are representable in GB18030", "times are whole seconds of the years 2000-2099 in the protocol's zone", "lists and texts fit their length prefix", "coordinates within 1e-6 resolution"},
	},
}

func rtJobs(P *Program, sel func(int64) bool) []unitJob {
	var out []unitJob
	for _, e := range P.registry(P.proto, "entityMapper") {
		if sel(e.key) {
			out = append(out, unitJob{args: []string{"rt", fmt.Sprintf("%04x", e.key), "-1"}})
		}
	}
	return out
}

// rtRefine re-analyses messages whose general form stayed undecided, once per
// concrete list length
func rtRefine(P *Program, reps []Report, tier string) []unitJob {
	var out []unitJob
	for i := range reps {
		r := &reps[i]
		f := strings.Fields(r.Unit)
		if len(f) != 3 {
			continue
		}
		und := r.Err != ""
		for _, o := range r.Obs {
			if o.Status == stUnresolved {
				und = true
			}
		}
		if und {
			for _, n := range []string{"0x0", "1x0", "2x0", "1x2", "2x2", "1x5"} {
				out = append(out, unitJob{args: []string{f[0], f[1], n}})
			}
		}
	}
	return out
}

func layoutJobs(P *Program, tier string) []unitJob {
	js := rtJobs(P, func(int64) bool { return true })
	for i := range js {
		js[i].args[0] = "lo"
	}
	for d := 1; d <= 12; d++ {
		for _, k := range []string{"no", "pkt"} {
			if d == 1 || d == 6 || d >= 11 || tier == "thorough" {
				js = append(js, unitJob{args: []string{"lh", "header", fmt.Sprint(d), k}})
			}
		}
	}
	for i, j := range frJobs(P, "quick") {
		fc := parseFrameCase(j.args[1])
		if j.args[0] != "fr" || fc.length >= 1023 {
			continue
		}
		if tier == "thorough" || i%5 == 0 || fc.length > 200 || fc.special["property"] != 0 {
			js = append(js, unitJob{args: []string{"lh", "frame", j.args[1]}})
		}
	}
	return append(js, rtJobs(P, func(int64) bool { return true })...)
}

func runUnit(P *Program, args []string, rep *Report) {
	switch args[0] {
	case "ss":
		key, _ := strconv.ParseInt(args[1], 16, 64)
		P.replyUnit(key, rep)
	case "lf":
		key, _ := strconv.ParseInt(args[2], 16, 64)
		P.lifeUnit(args[1], key, rep)
	case "rq":
		key, _ := strconv.ParseInt(args[2], 16, 64)
		P.requestUnit(args[1], key, rep)
	case "sn":
		key, _ := strconv.ParseInt(args[2], 16, 64)
		P.serialUnit(args[1], key, rep)
	case "fl":
		P.failUnit(args[1:], rep)
	case "rg":
		P.kindUnit(rep)
	case "rb":
		P.retainUnit(rep)
	case "ef":
		P.effectUnit(rep)
	case "lk":
		P.lockUnit(rep)
	case "rn":
		P.runUnit(args[1], rep)
	case "pe":
		P.deliverUnit(args[1], rep)
	case "pf":
		k, _ := strconv.ParseInt(args[2], 10, 64)
		P.partUnit(args[1], k, rep)
	case "tm":
		P.timerUnit(args[1], rep)
	case "xt":
		var key int64
		fmt.Sscanf(args[1], "%x", &key)
		P.extraUnit(key, rep)
	case "hd":
		d, _ := strconv.ParseInt(args[1], 10, 64)
		P.headerUnit(d, args[2] == "pkt", rep)
	case "fc":
		P.corruptUnit(args[1], rep)
	case "en":
		l, _ := strconv.ParseInt(args[1], 10, 64)
		k, _ := strconv.ParseInt(args[2], 10, 64)
		P.encryptUnit(l, k, rep)
	case "rx":
		P.streamUnit(args[1], args[2], rep)
	case "sd":
		P.sendUnit(args[1], rep)
	case "fr":
		P.frameUnit(args[1], rep)
	case "xl":
		P.extraListUnit(strings.Split(args[1], ","), rep)
	case "np":
		P.npUnit(args[1:], rep)
	case "bd":
		P.boundUnit(args[1], args[2], rep)
	case "lh":
		P.frameLayoutUnit(args[1:], rep)
	case "me":
		P.meaningUnit(rep)
	case "rt", "lo":
		key, _ := strconv.ParseInt(args[1], 16, 64)
		if f := strings.Split(args[2], "x"); len(f) == 2 {
			specLen, _ = strconv.ParseInt(f[0], 10, 64)
			specText, _ = strconv.ParseInt(f[1], 10, 64)
		}
		if args[0] == "lo" {
			P.layoutUnit(key, rep)
			return
		}
		for _, e := range P.registry(P.proto, "entityMapper") {
			if e.key == key {
				if e.typ == nil {
					rep.Obs = append(rep.Obs, Ob{Rule: "registry", What: args[1], Pos: e.pos, Status: stUnresolved, Detail: "constructor type unknown"})
					continue
				}
				rep.Obs = append(rep.Obs, P.checkRT(e)...)
				if specLen >= 0 {
					for i := range rep.Obs {
						rep.Obs[i].What += fmt.Sprintf("{lists of %d, texts of %d}", specLen, specText)
					}
				}
				for _, m := range []string{"Encode", "Decode", "DecodePacket"} {
					if f := P.methodOf(e.typ, m); f != nil {
						rep.Funcs = append(rep.Funcs, f.String())
					}
				}
			}
		}
	}
}
