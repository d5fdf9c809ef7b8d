#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
OC=["octetcounting/parser.go","octetcounting/scanner.go"]
NT=["nontransparent/parser.go","nontransparent/parser.go.rl"]
M54=["rfc5424/machine.go","rfc5424/parser.go","rfc5424/syslog_message.go"]
M31=["rfc3164/machine.go","rfc3164/parser.go","rfc3164/syslog_message.go"]
B54=["rfc5424/builder.go","common/functions.go"]
YH="statement-level yield points in the library, inserted by the build overlay (no source change)"
prop("C01","Octet-counted frames are recovered exactly, however the bytes arrive",
 "For any sequence of octet-counted frames, the listener receives exactly one result per frame, in stream order, and each result is what parsing exactly the declared number of octets of that frame as RFC 5424 yields: nothing lost, duplicated, merged or shifted. This does not depend on how the reader fragments, coalesces or delays the bytes (one byte at a time, empty reads, last bytes together with EOF, scribbled scratch space). Bytes that are not a 'MSGLEN SP MSG' frame (MSGLEN a decimal number without leading zeros, MSG starting with '<') end the stream with exactly one error result.",
 ["inputs","schedules","configurations"],"every byte stream, every sequence of Read outcomes that delivers it, every max length, strict and best effort, several connections served at once",
 "Tests feed a dozen fixed streams through strings.NewReader, which delivers everything in one Read; no test fragments a stream, mixes empty reads, or puts bytes between frames.",
 OC,[("one-token lookahead scanner over a buffered reader","octetcounting/scanner.go Scan/scanMsgLen/scanSyslogMsg"),("MSGLEN WS SYSLOGMSG loop","octetcounting/parser.go run")],["ParserListener calls"],
 [("msglen/ready","declared length and whether a space was seen","octetcounting/scanner.go"),("stepback/last","pushed back token","octetcounting/parser.go")])
prop("C02","Non-transparent records are recovered exactly, however the bytes arrive",
 "For any stream of records ended by the configured trailer (LF or NUL), a record that starts with '<' begins a message and each following record that does not is a continuation of it; the listener receives exactly one result per message, in order, equal to what parsing the message's bytes without its last trailer as RFC 5424 yields. This does not depend on how the reader fragments, coalesces or delays the bytes. A stream whose first byte is not '<' yields exactly one error result and no message.",
 ["inputs","schedules","configurations"],"every byte stream, every sequence of Read outcomes that delivers it, both trailers, strict and best effort, several connections served at once",
 "Tests feed seven short streams; multi-line continuation, large records, arbitrary fragmentation and garbage at the start are not explored.",
 NT,[("record reader that stops at the trailer","ragel-machinery DelimitedReader via nontransparent/parser.go Parse"),("candidate accumulation","nontransparent/parser.go Exec on_init/on_trailer, process")],["ParserListener calls"],
 [("candidate","bytes of the message being collected","nontransparent/parser.go")])
prop("C03","A cut octet-counted stream keeps every complete frame and invents nothing",
 "If the reader ends or fails at any byte, every frame received completely before that point is delivered unchanged. If the cut is inside a frame (after its first length digit and before its last octet) exactly one more result follows, carrying an error: in strict mode without a message, in best effort mode with a message only if the received part of the payload is itself minimally valid, and then exactly what parsing that part yields; a cut between frames adds no result, except that a stream that ends before its first byte reports one error. Bytes offered after a failed read are never delivered.",
 ["crash_points","fault_sequences","inputs"],"every cut position, every kind of end (EOF, timeout, reset, data together with the error, a failing read followed by more data), every stream and option",
 "Tests cut one frame at three places with a clean EOF; read errors, timeouts and data-with-error are never injected.",
 OC,[("error becomes end of stream token","octetcounting/scanner.go read"),("underflow handling","octetcounting/parser.go run (SYSLOGMSG branch)")],["ParserListener calls","Read calls"])
prop("C04","A cut non-transparent stream keeps every terminated message, flags the tail",
 "If the reader ends or fails at any byte, every message whose records were received up to their trailer is delivered unchanged and in order. A non-empty unterminated rest is delivered as exactly one more result that carries an error and whose message, if any, is what parsing just that rest yields; no result is added when nothing unterminated is left. Bytes offered after a failed read are never delivered.",
 ["crash_points","fault_sequences","inputs"],"every cut position, every kind of end, every stream, trailer and option",
 "Tests end three fixed streams without trailer using a clean EOF only.",
 NT,[("last chunk kept on read error","nontransparent/parser.go OnErr"),("flush at completion","nontransparent/parser.go OnCompletion")],["ParserListener calls","Read calls"],
 [("lastChunk/readError","unterminated rest and the error that ended the stream","nontransparent/parser.go")])
prop("C05","The octet-counting length limit holds and bounds read-ahead",
 "A frame whose declared length is at most the configured limit (8192 when not configured) is parsed in full; a larger declared length, with any number of digits, ends the stream with one error result and no message. Whatever length a peer declares and however much it sends, the parser never takes from the reader more than twice the limit plus 8 KiB beyond the last frame it delivered.",
 ["inputs","configurations","schedules"],"every limit, every declared length including ones at the limit, one above, and far beyond 64 bits, every fragmentation",
 "Tests use two limits, and one oversized length of two digits; nothing observes how much is read.",
 OC,[("length check before payload","octetcounting/parser.go run"),("reader sized from the limit","octetcounting/scanner.go NewScanner")],["ParserListener calls","bytes taken by Read calls"])
prop("C06","Malformed payloads damage only their own result",
 "With best effort on, a well-framed octet-counted message whose payload is malformed affects only its own result: every other frame's result is what it would be without it. With best effort off, octet-counted parsing stops at the first malformed payload with exactly one result that has an error and no message. Non-transparent parsing continues past malformed messages in both modes.",
 ["fault_sequences","inputs"],"every position and kind of in-transit payload corruption that keeps the framing intact, any number of damaged frames, every fragmentation",
 "Tests damage one hand-picked frame in streams of at most three.",
 OC+NT+M54,[("emit then continue or stop","octetcounting/parser.go run"),("per-message parse with fresh state","rfc5424/machine.go Parse"),("process","nontransparent/parser.go process")],["ParserListener calls"])
prop("C07","Results are prompt and stream parsing always finishes",
 "An octet-counted result is delivered as soon as its frame's last octet has been received, without waiting for any later byte; a non-transparent message is delivered at the latest when the first record of the next message is complete, and never before its own trailer has arrived. After end of stream, a failed read or an unrecoverable framing error (recognised at the latest with the last byte of the length, or the record, that shows it), Parse returns in bounded work without asking the reader for anything more. No listener call happens after Parse has returned.",
 ["schedules","fault_sequences","inputs"],"every arrival schedule with stalls of any length at any byte, every end, every framing error",
 "Tests never hold back input, so waiting for a byte that does not come, or reading on after the end, is invisible to them.",
 OC+NT,[("emit before next scan","octetcounting/parser.go run"),("loop ends on read error","ragel-machinery Parser.Parse"),("on_init flushes the previous candidate","nontransparent/parser.go Exec")],["ParserListener calls","Read calls","return of Parse"])
prop("C08","A stream parser can be reused: streams do not leak into each other",
 "When one stream parser parses several streams one after another, the results for each stream are those a newly made parser with the same options gives for it. This holds however the earlier streams ended: cleanly, cut at any byte, by a read error, on a framing or payload error, or abandoned because the listener or the reader panicked at any call.",
 ["histories","crash_points"],"every sequence of streams on one parser, every way and point of ending each of them",
 "Each test makes a new parser for its single stream.",
 OC+NT,[("scanner replaced per stream","octetcounting/parser.go Parse"),("candidate/lastChunk/readError","nontransparent/parser.go Parse")],["ParserListener calls"],
 [("candidate","must not survive a stream","nontransparent/parser.go"),("stepback","must not survive a stream","octetcounting/parser.go")])
prop("C09","Parsers made by NewParser are safe to share between goroutines",
 "When any number of goroutines call Parse on one RFC 5424 or RFC 3164 parser made by NewParser, every call returns exactly what that call alone would have returned on a new parser with the same options. There is no data race, no deadlock and no call that never returns, whichever calls fail or succeed.",
 ["schedules","inputs","histories"],"every interleaving of every set of concurrent Parse calls, strict and best effort, with and without options",
 "One test runs parallel subtests on a shared RFC 5424 parser under whatever schedule the runtime picks; RFC 3164 sharing is not tested.",
 M54+M31,[("mutex around the state machine","rfc5424/parser.go Parse, rfc3164/parser.go Parse")],["Parse return values"],
 [("data,p,pb,cs,err,currentelem,currentparam,backslashat,msgat","state of the running parse","rfc5424/machine.go"),("data,p,pb,cs,err","state of the running parse","rfc3164/machine.go")],YH)
prop("C10","Separate objects do not interfere across goroutines",
 "Goroutines that each use only their own messages under construction, their own message parsers or their own stream parsers, or read trailers from text, get exactly the results they would get alone, under every interleaving. There is no data race and no panic.",
 ["schedules","histories"],"every interleaving of building and serialising distinct messages, parsing with distinct parsers and streaming through distinct stream parsers",
 "No test builds or parses with several objects under a controlled schedule; package-level state shared by all of them goes unnoticed.",
 B54+M54+M31+OC+NT,[("per-call and per-object state only","rfc5424/builder.go set/SetParameter"),("no package-level mutable state","all packages")],["setters, String(), Parse results, ParserListener calls"],
 [("currentid/currentparamname","were package level variables shared by all builders","rfc5424/builder.go")],YH)
prop("C11","A returned message never changes afterwards",
 "A message handed to the caller keeps every field value, and an error its text, whatever happens next: the caller overwriting or reusing the input buffer, later Parse calls on the same or other parsers, the stream going on, other goroutines parsing, or the caller changing other messages. Changing one message never affects another message or a later parse, and parsing never modifies the input bytes.",
 ["histories","schedules"],"every interleaving of parsing, buffer reuse, stream progress and changes to other messages, for both message formats and both stream parsers",
 "Tests look at a result immediately and never touch the input buffer again.",
 M54+M31+OC+NT,[("field values copied out of the input","machine.go string(m.text())"),("fresh message per parse","rfc5424/syslog_message.go export, rfc3164/syslog_message.go export")],["retained messages"])
prop("C12","What a message parser returns depends only on the bytes and the options",
 "For any history of earlier Parse calls on the same RFC 5424 or RFC 3164 parser (successful or failing at any position, in any mode), the next Parse returns the same message and the same error as a new parser with the same options would. Parsing the same bytes again returns an equal outcome, and Err of a machine tells the error of its last Parse, or nil if that succeeded.",
 ["histories","inputs"],"every sequence of inputs, in particular inputs cut or damaged in the middle of every field, followed by any other input",
 "Tests use a new machine per case, or one shared parser over a fixed table compared with fixed values only.",
 M54+M31,[("state reset at the start of Parse","rfc5424/machine.go Parse, rfc3164/machine.go Parse")],["Parse return values"],
 [("pb,msgat,backslashat,currentelem,currentparam,err,cs","must not carry over","rfc5424/machine.go")])
prop("C13","What a client builds is what the server's listener gets",
 "A message built with the builder from field values the grammar allows, serialised, framed (octet counting, or non-transparent when no record-starting '<' follows a trailer inside it) and sent over any number of connections arrives exactly once, in order, with every field equal to what was set: priority, version, timestamp instant, hostname, app name, process id, message id, every structured data element and parameter, and the message text. This holds for every fragmentation and interleaving of connections, up to the point where a connection is cut.",
 ["inputs","schedules","fault_sequences"],"every set of built messages including maximum-length and multi-byte values, every delivery schedule, every cut",
 "Round trips are tested for a single growing ASCII-parameter message, without framing or transport.",
 B54+M54+OC+NT,[("serialisation and escaping","rfc5424/builder.go String, common/functions.go EscapeBytes"),("unescaping","rfc5424/machine.go set_paramvalue, common/functions.go RemoveBytes")],["ParserListener calls"])
prop("C14","Datagram service: each arriving RFC 5424 packet gives its own sender's message",
 "With one message per packet and packets lost, duplicated, reordered, delayed or cut short, each packet that arrives whole is parsed to exactly the fields its sender set, once per arrival, whichever worker handles it. A packet cut short gives, in best effort mode, a message only if priority and version survived, each of whose fields is absent or equal to the sender's (version and message text may be a prefix, structured data a subset); in strict mode it gives either an error or exactly such a message.",
 ["fault_sequences","schedules","inputs"],"every sequence of packet loss, duplication, reordering, delay and truncation at every byte, every assignment of packets to workers sharing a parser",
 "Tests truncate a handful of fixed messages at hand-picked places, one parse at a time.",
 M54,[("state machine and best effort export","rfc5424/machine.go Parse"),("minimal validity","rfc5424/syslog_message.go minimal/export")],["Parse return values"])
prop("C15","Damaged RFC 5424 bytes are accepted only if they still conform",
 "Whatever bits are flipped, bytes dropped, inserted or swapped in transit, a strict parse returns a message if and only if the received bytes conform to the grammar (RFC 5424 as the README and the grammar files narrow it), and then with exactly the field values those bytes spell; otherwise it returns an error and no message. In best effort mode a rejected input yields a message if and only if it starts with a valid priority and version (a version cut off by the end of the input may come out as a prefix), and that message carries every header field that was read completely before the damage and no other. With the compliant message option, a message text starting with a byte order mark is accepted only if it is valid UTF-8.",
 ["fault_sequences","inputs"],"every corruption of every message, at every position, in strict, best effort and compliant-message mode",
 "Tests hold some 300 fixed inputs; corruption reaches arbitrary states of a 600-state machine.",
 M54+["common/common.rl","rfc5424/machine.go.rl"],[("per-field state machine with error actions","rfc5424/machine.go.rl")],["Parse return values"])
prop("C16","Serialisation is a deterministic function of the message",
 "The text of a message depends only on its field values: not on map iteration order, on the order or repetition of the setter calls that produced the same values, on earlier serialisations, or on other goroutines reading the same message. Serialising never changes the message, fails exactly when priority or version is missing or out of range, and elements and parameters appear in sorted order.",
 ["schedules","histories"],"every map iteration order, every history of setter calls, every interleaving of concurrent readers",
 "Go randomises map order per run; tests check one message with few parameters and cannot choose the order, and no test reads concurrently.",
 B54+["rfc5424/syslog_message.go"],[("sorted identifiers and names","rfc5424/builder.go String")],["String() results"],None,"map iteration order chosen by the simulator through the build overlay")
prop("C17","RFC 3164 timestamps take the year the strategy means, across clock changes",
 "A Stamp timestamp parsed with the current-year strategy gets the year the system clock shows while that message is parsed, however long ago the parser was made and however the clock has jumped since; with a fixed year it gets that year, and without a year option year 0, whatever the clock does. RFC 3339 timestamps, when enabled, keep their own year and offset. The configured time zones only change how the instant is read and presented, never which parse it belongs to.",
 ["schedules","histories","configurations"],"every history of clock steps (forward, backward, over year ends) between parser creation and parses, every strategy and zone option, several parsers at once",
 "The one example of the current-year strategy compares with a year written into the test and fails in any other year; no test moves the clock.",
 M31+["rfc3164/year.go","rfc3164/options.go"],[("year strategy","rfc3164/year.go CurrentYear/Year"),("set_timestamp","rfc3164/machine.go")],["Timestamp of returned messages"],None,"clock seam for time.Now through the build overlay")
prop("C18","Datagram service: RFC 3164 packets give their sender's fields",
 "With packets lost, duplicated, reordered and delayed, each well-formed RFC 3164 packet that arrives whole is parsed to exactly its sender's priority, timestamp, hostname, tag, bracketed content and message text. A packet cut short, or with bytes no RFC 3164 text may hold, gives an error, or a message whose priority, timestamp and hostname are absent or exactly the sender's. In strict mode every parse returns either a message or an error, never both and never neither.",
 ["fault_sequences","schedules","inputs"],"every sequence of packet loss, duplication, reordering, delay, truncation and byte damage, every assignment of packets to workers sharing a parser",
 "Nine fixed messages, all valid; no invalid input at all is in the RFC 3164 table.",
 M31+["rfc3164/machine.go.rl"],[("state machine","rfc3164/machine.go"),("outcome selection at the end of Parse","rfc3164/machine.go Parse")],["Parse return values"])
prop("C19","No bytes and no I/O fault can crash or hang the library",
 "For arbitrary bytes delivered in an arbitrary way with arbitrary read failures, every parser (both message formats, both stream framings, all options) and every builder setter returns without panicking, in work bounded by a fixed multiple of the bytes given, and leaves the object usable. An untrusted peer therefore cannot take down, stall or wedge the process.",
 ["inputs","fault_sequences","configurations"],"every byte string and every fault sequence",
 "Tests contain a few hundred well-chosen inputs and no faults.",
 M54+M31+OC+NT+B54,[("total state machines","machine.go"),("bounded loops over input","all parsers")],["return of every call"])
prop("C20","The listener contract: synchronous, one at a time, a verdict each time",
 "During one Parse call of a stream parser the listener is called on the calling goroutine, never concurrently with itself, once per outcome, with a result that is its own object and carries a message, an error, or (only with best effort, or for the unterminated rest of a non-transparent stream) both, but never neither. A listener may use the library itself, including running other parsers on other streams, without changing the outer results. A panic raised by the listener or the reader reaches the caller of Parse unchanged and stops further listener calls. The reader is the caller's: Parse reads from it, as whatever kind of reader it comes, and does not close it.",
 ["schedules","histories","fault_sequences"],"every stream, every nesting of library calls inside listeners, every point at which listener or reader panics",
 "Test listeners only append to a slice.",
 OC+NT,[("direct emit call","octetcounting/parser.go run, nontransparent/parser.go process/OnCompletion")],["ParserListener calls"])
prop("C21","Damaged RFC 3164 bytes are accepted only if they still conform",
 "Whatever bits are flipped, bytes dropped, inserted or swapped in transit, a strict parse returns a message if and only if the received bytes conform to the format (RFC 3164 as the README and the grammar files narrow it: '<PRI>' 0-191, an existing 'Mmm dd hh:mm:ss' date or, if enabled, RFC 3339 without a fraction, a host name of 1-255 visible ASCII characters, and a text without control characters), and then with exactly the values those bytes spell: the split of the text is 'TAG: TEXT' or 'TAG[CONTENT]: TEXT' with a tag of 1-32 visible characters, else all of it is the message. Otherwise it returns an error and no message. In best effort mode a rejected input yields a message if and only if it starts with a complete valid priority, and that message carries the timestamp and the host name if they were read completely before the damage and no invented ones.",
 ["fault_sequences","inputs","configurations"],"every corruption of every message, at every position, with every option",
 "The RFC 3164 tests hold some ten inputs, all valid; corruption reaches every state of the machine.",
 M31+["rfc3164/machine.go.rl","common/common.rl"],[("per-field state machine with error actions","rfc3164/machine.go.rl"),("tag, content and message rules","rfc3164/machine.go.rl")],["Parse return values"])
prop("C22","A rejected packet's error names the failing part and the exact column",
 "When damaged or truncated bytes are rejected, the error ends with the 0-based column at which they stop being the beginning of any conforming message (or at which they end, when they are cut), for RFC 5424 and RFC 3164, in every mode; and it names the part of an RFC 5424 message that failed (priority, version, host name, app name, process id, message id, structured data element or parameter, duplicate element, escape). The column depends on these bytes only, not on what the parser read before or reads at the same time.",
 ["fault_sequences","inputs","histories"],"every corruption and truncation of every message at every byte, on parsers that served any other packets before",
 "Tests pin about 300 fixed inputs and no RFC 3164 error at all.",
 M54+M31+["rfc5424/machine.go.rl","rfc3164/machine.go.rl"],[("error actions record the position","machine.go.rl $err actions")],["Parse errors"])
prop("C23","Builder setters change what they name, if valid, and nothing else",
 "For every sequence of setter calls on any message, whether new, obtained by parsing received bytes, or with nil maps put into its structured data by its owner: a setter whose value the grammar allows sets exactly that part (SetPriority also facility and severity; SetElementID and SetParameter create what is missing; parameter values are given escaped and stored unescaped) and leaves every other part as it was; a setter whose value the grammar does not allow is discarded: it never changes or removes anything that is there. SetParameter on an existing parameter either keeps the value or takes the new valid one, and with an unusable value creates at most an empty parameter. Every setter returns its own message, and no other message changes, on this or another goroutine.",
 ["histories","inputs","schedules"],"every sequence of setter calls with any arguments, interleaved with parses, serialisations and builders of other goroutines",
 "Tests apply one or two values per field to a new message and look at that field only.",
 B54+["rfc5424/builder.go.rl","rfc5424/syslog_message.go"],[("setter state machines","rfc5424/builder.go set/setWithin"),("create element, then name, then value","rfc5424/builder.go SetParameter")],["fields of the message after every call"])
prop("C24","Names and validity follow a message's own priority, whatever else happens",
 "For every message, however it was made (either format, stream or packet, strict or best effort, built, or given another priority with ComputeFromPriority) facility and severity are those of its priority, the facility and severity messages, levels and short levels are the documented names of these numbers, and Valid holds exactly if the priority is 0-191 and, for RFC 5424, the version is 1-999. A caller may overwrite the strings it was given: no later answer, of this or any other message, on this or another goroutine, changes.",
 ["histories","schedules"],"every priority, every sequence of parses, priority changes, questions and overwritten answers, by several goroutines",
 "Tests ask three messages once each; shared tables and aliased answers are invisible to that.",
 ["syslog.go","common/facility.go","common/severity.go","rfc5424/syslog_message.go","rfc3164/syslog_message.go"],[("lookup tables","common/facility.go, common/severity.go"),("accessors return pointers","syslog.go")],["accessors"])
prop("C25","A parser does what the options in force say, also when they change",
 "Options may be given in any order and more than once (the last one counts), and best effort, the length limit, the listener, the year strategy, the time zones and RFC 3339 timestamps may be changed on an existing parser between messages or streams: everything parsed afterwards comes out as from a parser made with the options then in force, nothing parsed before changes, and HasBestEffort says what is in force. A trailer read from configuration text ('lf', 'NUL', quoted or not, any case) is that trailer and is written back as its name; any other text is an error, and never a usable trailer.",
 ["configurations","histories"],"every sequence of option changes and uses, every order and repetition of options, several parsers at once",
 "Tests set options once, in one order, and never on a parser that was used.",
 OC+NT+["nontransparent/trailer_type.go","options.go","rfc3164/options.go","rfc5424/options.go"]+M54+M31,[("option functions and setters","options.go, octetcounting/parser.go, nontransparent/parser.go"),("trailer names","nontransparent/trailer_type.go")],["ParserListener calls","Parse return values","HasBestEffort","TrailerType methods"])
prop("C26","Messages survive a chain of relays",
 "A relay that receives an RFC 5424 message, in strict or best effort mode, may change it with setters, another priority, and removal of fields, structured data elements or parameters, and send it on as String() gives it: whenever String() succeeds, the text is a conforming message, and the next relay parses it without an error into exactly the message that was sent on (a structured data part without elements arrives as none). This holds over any number of hops, over octet-counted and non-transparent streams and over packets, and for whatever the first hop received, also truncated or damaged messages of which best effort kept a part; every message whose frame arrives whole is delivered, in order on streams.",
 ["histories","inputs","fault_sequences","schedules"],"every message at the first hop, every sequence of changes at every hop, all transports, losses, duplicates, reorderings, fragmentations and cuts, several chains at once",
 "Tests serialise a few built messages and never parse what they serialised, and never serialise a message that was received in part.",
 B54+["rfc5424/builder.go.rl","rfc5424/syslog_message.go"]+OC+NT+M54,[("serialisation","rfc5424/builder.go String, SerializeSD"),("minimal() decides what best effort keeps","rfc5424/syslog_message.go")],["String()","ParserListener calls","Parse return values"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
