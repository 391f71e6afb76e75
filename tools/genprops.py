#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay readable)."""
import json, os
S="pkg/server/"
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=hook)))

MACH=("machine record","current key serial number, transaction key and registration data of one device",S+"machine.go")
REG=("registry","registered machines by initial key",S+"repository.go")
ADV=("advance: next counter, re-derive, publish both together",S+"service.go MakeNextKSN")
SVC=("service lock and per-call snapshot of the machine",S+"service.go")
SEQ="The tests are sequential: one caller, one or two machines, one advance each."

p("C01","A key serial number is never issued twice",
 "While a machine stays registered, no two acknowledged next-key requests for it return the same key serial number, and a request that starts after another was acknowledged returns a strictly later one; no transaction key repeats across different key serial numbers of the machine. This holds for any number of concurrent callers, for duplicated or retried requests, and when responses are lost.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of concurrent callers on any set of TDES and AES machines, with request duplication, loss, retry, lost responses and client crashes",
 SEQ+" They cannot reach an interleaving of two advances, a duplicated request or a lost response.",
 [S+"service.go",S+"repository.go",S+"routing.go",S+"handlers.go","pkg/util.go"],[MACH,REG],[ADV,("counter increment","pkg/util.go")],
 ["next-key responses of the service and of POST /generate_ksn/{ik}"],"statement-level scheduling points and simulated sync primitives, inserted at build time by overlay")

p("C02","Every advance is exactly one step of the standard's counter",
 "Each successful next-key request moves its machine to exactly the next transaction-counter value the standard allows (values with more than 10 one-bits for TDES, more than 16 for AES, are skipped and no other value is), leaving the device-identifying part of the key serial number unchanged. After any history, the machine stands exactly as many steps past its registered position as advances took effect: none is lost, doubled or caused by any other request.",
 ["schedules","histories","inputs","fault_sequences"],
 "every interleaving and every history of service operations from every starting counter, including duplicated, retried and unacknowledged advances",
 "Tests advance counters 1 to 8 once each; skipping starts at 2^10-1 resp. 2^16-1, and lost updates need two callers.",
 [S+"service.go","pkg/util.go"],[MACH],[ADV,("bit-count skipping","pkg/util.go GenerateNextAesKsn, GenerateNextDesKsn")],
 ["current key serial number in every machine view and next-key response"],None)

p("C03","An exhausted machine refuses to issue keys and stays intact",
 "Once a machine has used the last counter value the standard allows (1FF800 hex for TDES, FFFF0000 hex for AES), every further next-key request for it fails, permanently and for every caller, and no counter value beyond the last or with too many one-bits is ever issued. A refused request leaves the machine at its last valid key serial number and transaction key, still able to serve the current transaction, and leaves other machines unaffected.",
 ["histories","schedules","inputs"],
 "every history that reaches the end of the counter, with any number of callers racing for the last values",
 "No test goes near the end of either counter; reaching it concurrently needs a race for the last value.",
 ["pkg/util.go",S+"service.go"],[MACH],[("exhaustion tests","pkg/util.go"),ADV],["next-key responses and machine views at the end of the counter"],None)

p("C04","Every machine view is coherent",
 "Every view of a machine that the system hands out (by creation, lookup, listing or advance, in process or over REST) carries a transaction key that the standard derives from exactly the initial key and the current key serial number shown in the same view, an initial key derived from exactly the base key and key serial number it was registered with, and unchanged registration data. No interleaving makes a caller see one field from before and another from after an advance.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of readers with creations, advances and deletions, including readers slowed or stalled between fields",
 SEQ+" A torn view needs a reader between two writes of an advance.",
 [S+"service.go",S+"repository.go",S+"handlers.go",S+"routing.go","pkg/aes/aes.go","pkg/des/des.go"],[MACH,REG],[ADV,SVC],
 ["all machine views returned by Service and in REST bodies"],None)

p("C05","Each cryptographic answer belongs to one current transaction",
 "Every PIN, MAC and data operation of the service answers exactly what the standard prescribes for one key serial number that was current for that machine at some moment between the request and the response, and its transaction key; it never mixes the key of one transaction with the key serial number of another. Concurrent advances, other operations and other machines never change an answer in any other way.",
 ["schedules","histories","inputs"],
 "every interleaving of cryptographic operations (all algorithms, key sizes, PIN formats, actions, MAC kinds, IVs) with advances, creations and deletions",
 SEQ+" The mixed key and serial number arise only when an advance runs between two reads.",
 [S+"service.go",S+"wrapper.go","pkg/aes/aes.go","pkg/aes/aes_internal.go","pkg/des/des.go","pkg/des/des_internal.go"],[MACH],[SVC,("working key derivation","pkg/aes/aes_internal.go, pkg/des/des.go")],
 ["results of the five cryptographic service operations and REST endpoints"],None)

p("C06","The machine registry behaves like one atomic map",
 "Creating, looking up, listing, advancing and deleting machines are linearizable: for a device identity at most one of any set of concurrent creations succeeds and the others report that it already exists without changing it, an acknowledged creation is visible to every later lookup and listing, and after an acknowledged deletion the machine is not found until created again. A listing is a snapshot containing each registered machine exactly once.",
 ["schedules","histories","fault_sequences"],
 "every concurrent history of registry operations on any set of machines, with lost responses and retries",
 "Tests create, list and delete sequentially with two machines.",
 [S+"repository.go",S+"service.go",S+"handlers.go"],[REG],[("reader/writer lock around the map",S+"repository.go"),SVC],
 ["results of create, get, list, next, delete"],None)

p("C07","A request that fails changes nothing",
 "When an operation reports an error, for whatever reason (invalid input, unknown or duplicate machine, exhausted counter, refusing store, failing randomness source), the registered machines and their current keys are exactly as if it had never been issued, and no partial result is returned. Success is reported only if the store accepted the change.",
 ["fault_sequences","histories","inputs"],
 "every placement of store failures, entropy failures and invalid inputs in concurrent histories",
 "Tests check one failing call (duplicate creation) and never what it left behind; no test injects a store or entropy failure.",
 [S+"service.go",S+"repository.go",S+"wrapper.go"],[MACH,REG],[("compute before publish",S+"service.go"),("error propagation",S+"wrapper.go")],
 ["machine views after failing calls; the injected store's record of accepted changes"],"none: the store is an injected interface, the randomness source a replaceable reader")

p("C08","Machine views and inputs are private to their holder",
 "A machine view once returned to a caller never changes afterwards because of later requests, and changing a returned view, or the object that was passed in to create a machine, never changes what the service holds or what any other caller sees. Re-submitting an object for creation does not disturb the machine already registered from it.",
 ["histories","schedules"],
 "every history in which holders of views and creation objects keep, re-read, modify and re-submit them while other callers operate",
 "No test keeps a view across a later operation or modifies one.",
 [S+"service.go",S+"repository.go",S+"handlers.go"],[MACH,REG],[("copies at the service boundary",S+"service.go")],
 ["views and creation objects re-read after later operations"],None)

p("C09","Damaged or hostile requests are contained",
 "Whatever bytes arrive in a request (truncated, corrupted, wrongly typed, missing or over-long fields, wrong method or path, a connection that dies mid-request), the server answers with at most one well-formed response and never crashes the handler; requests it cannot serve are refused with an error and change nothing. Service and library calls given malformed keys, serial numbers, IVs, PINs, PANs or ciphertexts never crash or hang, and what cannot be interpreted (text that is not hexadecimal, a key or serial number of a wrong length, a PIN that is not decimal) is refused with an error.",
 ["inputs","fault_sequences","histories"],
 "every corruption or truncation of every kind of request at any byte, mixed with valid traffic from other clients",
 "Tests send only well-formed requests.",
 [S+"handlers.go",S+"routing.go",S+"service.go","pkg/util.go","pkg/aes/aes.go","pkg/aes/aes_internal.go","pkg/des/des.go","pkg/des/des_internal.go"],[REG],[("request decoding",S+"handlers.go"),("length checks","pkg/aes, pkg/des")],
 ["HTTP responses and handler panics, service results"],None)

p("C10","A failed REST operation is never presented as success",
 "Every REST request whose operation failed is answered with a status outside 2xx and a JSON body carrying a non-empty error text, and every request whose operation succeeded is answered with a 2xx status and the complete result with no error. This also holds for requests raced by a deletion, an exhaustion or a concurrent creation, and for failures of the store.",
 ["histories","schedules","fault_sequences"],
 "every REST operation failing for every reason the service can report, at every point of a concurrent history",
 "No routing test exercises a failing request.",
 [S+"routing.go",S+"handlers.go"],[],[("response encoding and status mapping",S+"routing.go"),("endpoint error fields",S+"handlers.go")],
 ["HTTP status and body of every response"],None)

p("C11","Decrypting over REST returns what was encrypted",
 "While a machine's key serial number stays the same, sending the answer of an encrypt request (PIN or data) to the matching decrypt request with the same parameters returns the original PIN, or the original data zero-padded to the cipher's block length. This holds for every documented PIN format (up to the digits the format carries), algorithm, key size, action and IV, whatever other clients and machines do in between and however the network delays, duplicates or reorders the requests.",
 ["histories","schedules","inputs","fault_sequences"],
 "every pair of encrypt and decrypt requests over REST and through the service with arbitrary traffic between them",
 "The REST cryptographic endpoints have no test at all; service tests use one PIN, one format and fixed data.",
 [S+"handlers.go",S+"service.go",S+"wrapper.go","pkg/des/des.go","pkg/aes/aes.go"],[MACH],[("endpoint to service dispatch",S+"handlers.go"),("PIN and data codecs","pkg/des, pkg/aes")],
 ["encrypt and decrypt responses"],None)

p("C12","A stalled client never holds up the others",
 "A client that stalls, disconnects or dies while sending its request or reading its response does not delay any other client's request beyond the work of requests actually executing, and no interleaving of requests deadlocks. Once faults stop, every well-formed request is answered within a bounded number of steps.",
 ["schedules","fault_sequences"],
 "every schedule with any subset of clients stalled at any byte of request or response, or vanished",
 "Tests use in-memory bodies that never stall and one request at a time.",
 [S+"handlers.go",S+"routing.go",S+"repository.go",S+"service.go"],[REG],[("no lock held across reading a body or writing a response",S+"handlers.go, "+S+"repository.go")],
 ["completion step of every request; set of tasks blocked when no task can run"],None)

p("C13","Requests never leak into each other",
 "An operation on one machine never affects the state or answers of another machine, and every response is computed from its own request alone: its machine, its parameters and its origin header, never those of a request in flight at the same time. The result of every operation is the same as if the machines were served by separate services.",
 ["schedules","histories"],
 "every interleaving of concurrent requests for different machines and from different origins, over REST and in process",
 "Tests have one request in flight at a time.",
 [S+"handlers.go",S+"routing.go",S+"service.go",S+"wrapper.go","pkg/aes/aes_internal.go","pkg/des/des_internal.go"],[MACH,REG],[("per-request context and parameters",S+"handlers.go, "+S+"routing.go")],
 ["responses and headers matched to their requests"],None)

p("C14","Host and terminal stay interoperable over a bad network",
 "A host that knows only the base key can derive, from the key serial number carried by any message a standard-conforming terminal ever sends, the key that recovers the PIN and data of the message and reproduces its MAC, and a terminal accepts the host's reply under the same key. This holds for TDES and every AES key size, whatever messages are lost, duplicated, delayed or reordered, and across restarts of host and terminal; a message altered in transit never passes MAC verification.",
 ["fault_sequences","histories","inputs","crash_points"],
 "every delivery order, loss, duplication and alteration of messages between terminals and concurrent host workers, with crash and restart of either side, from every counter position",
 "Tests cover counters 1 to 8 of one TDES and one AES-128 key with no second party; AES-192 and AES-256 are not exercised.",
 ["pkg/aes/aes.go","pkg/aes/aes_internal.go","pkg/des/des.go","pkg/des/des_internal.go","pkg/util.go","encryption/aes_ecb.go","encryption/des_ecb.go"],[],
 [("key derivation hierarchy","pkg/aes, pkg/des"),("counter extraction","pkg/util.go")],["plaintexts and MACs recovered by each side"],None)

p("C15","Library calls leave their inputs alone and are reentrant",
 "No library call (key derivation, counter advance, PIN, MAC and data operations) modifies any buffer passed to it, within or beyond its length, and a returned buffer shares no memory with the inputs. Any number of calls running concurrently on shared key, serial-number and IV buffers return exactly what they return when run alone.",
 ["schedules","inputs"],
 "every statement-level interleaving of concurrent library calls sharing input buffers of any length and capacity",
 "Tests call the library from one goroutine with fresh buffers and never look at the inputs afterwards.",
 ["pkg/util.go","pkg/aes/aes.go","pkg/aes/aes_internal.go","pkg/des/des.go","pkg/des/des_internal.go","encryption/aes_ecb.go","encryption/des_ecb.go"],[],
 [("private copies of inputs","pkg/aes, pkg/des, pkg/util.go")],["input buffers and guard bytes after every call; results against a reference"],None)

p("C16","The server shuts down gracefully and within a bound",
 "On an interrupt or termination signal at any moment, the server stops accepting work, completes and fully answers every request it had accepted, and only then exits; clients that stall are cut off by the connection timeouts, so that the exit happens within a bounded time. If a listener cannot start or fails, the process reports it and exits in the same orderly way instead of hanging.",
 ["crash_points","schedules","fault_sequences"],
 "every arrival time of a signal or listener failure relative to any set of running, slow and stalled requests",
 "The server program has no tests.",
 ["cmd/server/main.go"],[("termination channel","first termination cause","cmd/server/main.go")],[("signal handling and Shutdown","cmd/server/main.go"),("read, write and idle timeouts","cmd/server/main.go")],
 ["responses of accepted requests, simulated exit time"],"simulated listener, signals, clock and process exit substituted at build time by overlay")

p("C17","The command-line tool never claims success it did not deliver",
 "The command-line tool exits with status zero after an operation only if its complete result line was written to standard output, and with a non-zero status otherwise, whether the operation was refused or the output failed (closed, full or broken). A refused operation prints its reason and no result line.",
 ["fault_sequences","inputs"],
 "every command invocation under every failure of its output",
 "The command-line tool has no tests.",
 ["cmd/dukptcli/main.go",S+"wrapper.go"],[],[("result printing and exit status","cmd/dukptcli/main.go")],["exit status and bytes delivered to standard output"],"output files and process exit substituted at build time by overlay")

p("C18","Concurrent use is free of data races",
 "Any number of goroutines may use one service, its registry, its HTTP handler and the library at the same time without a data race in the sense of the Go memory model. In particular no caller reads memory of a registered machine that another call may be writing without synchronisation.",
 ["schedules","histories"],
 "every interleaving of every mix of concurrent operations",
 "The test suite has no concurrency, so the race detector finds nothing in it.",
 [S+"service.go",S+"repository.go",S+"handlers.go",S+"routing.go","pkg/util.go","pkg/aes/aes_internal.go","pkg/des/des_internal.go"],[MACH,REG],[SVC,("reader/writer lock around the map",S+"repository.go")],
 ["happens-before race reports under simulated schedules"],None)

p("C19","Command-line tool, library and REST service agree",
 "For one base key and key serial number, an operator working step by step with the command-line tool (deriving the initial and transaction keys, then encrypting, decrypting or computing a MAC with the documented options) and a REST service holding the same machine produce the same keys, MACs and ciphertexts, and each decrypts what the other encrypted, at every step of the machine's life. Messages between them may be lost, duplicated or reordered without disturbing this.",
 ["histories","inputs","fault_sequences"],
 "every session of operators and clients over the documented options, algorithms and key sizes at every counter position the service reaches",
 "The command-line tool has no tests and nothing compares the two front ends.",
 ["cmd/dukptcli/main.go",S+"wrapper.go",S+"service.go",S+"handlers.go"],[MACH],[("shared operation wrappers",S+"wrapper.go"),("flag handling","cmd/dukptcli/main.go")],
 ["tool output compared with REST responses"],"process exit and output substituted at build time by overlay")

p("C20","The server keeps serving and reclaims stalled connections",
 "Unless it is told to stop or one of its listeners fails, the server program keeps running and keeps accepting and answering requests, whatever its clients do. A connection on which the client stops sending its request, stops reading its response or stays idle is closed within a bounded time, on the service port and on the admin port alike, so that stalled clients cannot accumulate.",
 ["schedules","histories","fault_sequences"],
 "every history of well-behaved, slow, stalled and vanishing clients on both ports, in every interleaving",
 "The server program has no tests; the handler tests use no connections and no clock.",
 ["cmd/server/main.go"],[("server timeouts","read, write and idle limits of both servers","cmd/server/main.go")],[("read, write and idle timeouts","cmd/server/main.go"),("listener start-up and error channel","cmd/server/main.go")],
 ["responses, and the simulated time at which connections are closed"],"simulated listener, signals, clock and process exit substituted at build time by overlay")

p("N01","PIN blocks are laid out as their format prescribes",
 "For every PIN and PAN a documented PIN-block format accepts, the clear PIN block has exactly the nibble layout, fill and PAN masking the format prescribes.",
 ["inputs"],"every PIN, PAN and format",
 "Tests use one PIN in one format.",
 ["pkg/des/des.go","pkg/aes/aes.go"],[],[("PIN block formatter (external module)","pkg/des/des.go EncryptPin, pkg/aes/aes.go EncryptPin")],["clear PIN block"],None)

p("N02","The command line picks exactly one operation by priority",
 "When several operation options are given, the command-line tool performs exactly one, the first in the documented order, and ignores the parameters of the others.",
 ["inputs"],"every combination of options",
 "The command-line tool has no tests.",
 ["cmd/dukptcli/main.go"],[],[("order of option checks","cmd/dukptcli/main.go")],["printed result"],None)

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
