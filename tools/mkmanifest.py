#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(os.path.join(here,"..","properties.jsonl"))]
race={"C09","C10","C11","C16","C24"}
note={
"C01":"Seeded search over frames, limits and Read behaviours; the framing model in sim/model and a fresh sequential RFC 5424 parse are trusted.",
"C02":"As C01, with the non-transparent framing model.",
"C03":"Every run cuts or fails the stream somewhere; exact expectation from the framing model.",
"C04":"Every run cuts or fails the stream somewhere; exact expectation from the framing model.",
"C05":"Read-ahead is counted at the reader; lengths drawn around the limit, 2^31, 2^32, 2^63, 2^64 and beyond.",
"C06":"Malformed payloads at drawn positions; results compared with a fresh parse of every payload.",
"C07":"Promptness is judged on the recorded order of Read and listener calls, in simulated time; termination within a step budget.",
"C08":"Differential: the same stream on a parser made for it. Streams end in every way including listener and reader panics.",
"C09":"Statement-level simulated schedules plus the same simulation in a -race build.",
"C10":"Statement-level simulated schedules plus the same simulation in a -race build.",
"C11":"Snapshots of retained messages compared after every later operation; aliasing of input buffers included.",
"C12":"Differential: the same bytes on a new parser.",
"C13":"End to end: builder tasks, simulated connections, stream parsers; compared with the fields the clients set.",
"C14":"Simulated datagram network; compared with the fields the senders set.",
"C15":"In-transit corruption; compared with a hand-written RFC 5424 recogniser that is trusted.",
"C16":"Setter orders, map iteration orders and concurrent readers under the simulator; reference serialiser.",
"C17":"The simulated wall clock jumps while parsers live; compared with a calendar model.",
"C18":"Simulated datagram network; compared with the fields the senders set. Ambiguous splits of the text are left to C21.",
"C19":"Arbitrary bytes, faults and histories; no panic, bounded statement count, parser still works afterwards.",
"C20":"Listener contract predicates over the recorded history, with re-entrant, mutating, sleeping and panicking listeners.",
"C21":"In-transit corruption; compared with a hand-written RFC 3164 recogniser that is trusted. Texts where tag or content end ambiguously are left open.",
"C22":"In-transit corruption and truncation; columns compared with the longest viable prefix of hand-written recognisers that are trusted.",
"C23":"Every setter call is a transition checked against a model of the whole message; borders of every field, parsed and new messages, several goroutines.",
"C24":"Names asked, overwritten and asked again among parses, builds and priority changes on several goroutines; also in a -race build.",
"C25":"Differential (a parser made with the options in force) and the framing and grammar models; options changed between uses only.",
"C26":"Simulated relays over streams and packets; every arrival compared with the message that the relay before sent on.",
}
na={}
m={"version":1,
"setup_cmd":"bash /verif/setup.sh",
"checks":[{"property":p["id"],"quick_cmd":f"bash /verif/check.sh {p['id']} quick","thorough_cmd":f"bash /verif/check.sh {p['id']} thorough","technique":"deterministic simulation with fault injection"+(" (also under the race detector)" if p["id"] in race else ""),"level":"exploration","level_note":note[p["id"]]} for p in props if p["id"] in note],
"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"No hooks in /repo: every check instruments a scratch copy of /repo's working tree (go build -overlay) with scheduling points, simulated locks, clock, goroutines and map order. Replay: bash /verif/check.sh <id> --replay <file>. Known and fixed findings: known-findings.txt."}
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
open(os.path.join(here,"..","MANIFEST.json"),"a").write("\n")
