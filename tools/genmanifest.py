#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORLD="deterministic simulation: seeded schedules of concurrent clients against the real service and REST handler, with network, store and entropy faults; "
T={
"C01":(WORLD+"per-machine linearizability of the advance history against a reference key sequence","Seeded search over bounded histories (up to about 40 operations, 8 clients); not exhaustive."),
"C02":(WORLD+"every serial number observed must be paired with the reference key of exactly that number","Seeded search; reference model is an independent implementation of both standards."),
"C03":(WORLD+"machines registered close to the end of their counter are driven to exhaustion and beyond","Seeded search; the end of the counter is reached by registering machines near it."),
"C04":(WORLD+"responses must carry the initial key of the reference for the machine's own base key","Seeded search."),
"C05":(WORLD+"each answer must be the reference result for one single serial number current during the call","Seeded search."),
"C06":(WORLD+"linearizability of the registry against an atomic map","Seeded search; histories too long to decide are counted as inconclusive in the evidence."),
"C07":(WORLD+"store, entropy and input failures at seeded points, state compared with the model after each","Seeded search."),
"C08":(WORLD+"holders keep, re-read, modify and re-submit views","Seeded search; covers in-process callers (REST responses are copies by nature)."),
"C09":("deterministic simulation: corrupted, truncated and dying requests and malformed library arguments injected among valid traffic; crash, refusal and state oracles","Seeded search over damage; byte-level damage is generated, not enumerated."),
"C10":(WORLD+"status and body of every response against the outcome the model demands","Seeded search."),
"C11":(WORLD+"encrypt-then-decrypt pairs compared with the original","Seeded search; PIN lengths 10 to 12 in seven TDES formats are a known finding in a dependency."),
"C12":(WORLD+"stalled, slow and vanishing clients; bounded-step and deadlock oracles under the simulated clock","Liveness is checked as completion within a bounded simulated time and number of steps."),
"C13":(WORLD+"responses compared with those of separate services","Seeded search."),
"C14":("deterministic simulation of terminals and host workers over a lossy network with crashes and restarts; recovered plaintext and MAC against a reference terminal","Seeded search; either side may be the library or the reference."),
"C15":("deterministic simulation: library calls interleaved at statement level on shared guarded buffers; memory and result oracles against solo execution and the reference","Seeded search; memory is compared byte by byte around every call."),
"C16":("deterministic simulation of the server program: simulated listener, connections, clock and signals, with shutdown and listener failures at seeded points","net/http's server is replaced by a simulated one with the same documented behaviour; the program's own code is real."),
"C17":("deterministic simulation of the command-line tool under seeded output failures (full, closed, broken after N bytes)","Every invocation is a simulated process inside the simulator (its own arguments, flags, output and exit status, with os.Exit intercepted); the failing outputs are real files (closed, read-only, full device, broken pipe, file-size limit)."),
"C18":("deterministic simulation under the race detector: seeded schedules whose hand-overs create no happens-before edges","A race is reported only if the two accesses happen in an explored schedule."),
"C19":("deterministic simulation of operators with the command-line tool and REST clients on one service, lossy network; outputs compared step by step","Seeded search over sessions."),
"C20":("deterministic simulation of the server program: simulated listener, connections and clock, with stalled, slow, idle and vanishing clients on both ports","net/http's server is replaced by a simulated one with the same documented behaviour; the program's own code is real. Bounded time means a fixed multiple of simulated minutes."),
"C21":("deterministic simulation of the server program: simulated environment, options, listeners and key files, with start-up failures and signals at seeded points","net/http's server and the TLS handshake are replaced: a connection is marked as TLS or plain by the call that serves it. Which settings exist is taken from the program; giving only one of certificate and key is not judged."),
"C22":("deterministic simulation of thousands of served, refused, damaged, interrupted and failing requests of several clients on one service; memory and goroutines left are compared after every doubling of their number","Growth below some 8 bytes per request, or growth that stops within 8 000 requests, is not told from a bounded cache. Connections of the server program are C20's."),
"C23":("deterministic simulation of service, REST handler, server program and tool under refused, damaged, interrupted and failing requests; every error, failed response, message and log line is searched for the secrets of the run","Secrets are recognised as given or in hexadecimal, PINs from eight digits on; other encodings of them, and single digits quoted in an error, are not. The operator's own arguments on the command line are visible to the operating system anyway."),
}
claimed=os.environ.get("CLAIM","").split() or sorted(T)
checks=[]
for i in sorted(T):
    if i not in claimed: continue
    t,n=T[i]
    checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":t,"level":"exploration","level_note":n})
na=[{"property":"N01","reason":"Pure function of PIN, PAN and format inside a dependency (moov-io/pinblock): no schedule, time, I/O or second party is involved, so simulation adds nothing to plain input generation. What crosses parties (that what one side encrypts the other recovers) is decided under C11 and C14."},
    {"property":"N02","reason":"A sequential choice over the parsed flags of one process: nothing in it depends on scheduling, time, faults or another party, so there is nothing for a simulator to decide."}]
for i in sorted(T):
    if i not in claimed: na.append({"property":i,"reason":"check under construction"})
json.dump({"version":1,"setup_cmd":"./setup","hooks":{"guard":"go build -overlay (no guarded code in /repo: the hooks are inserted into a copy of the sources at build time)","enable":"./check builds with the overlay that sim/instr generates from /repo's working tree","source_commits":[]},"checks":checks,"not_applicable":na},open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
